package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

func init() {
	register(&Prop{
		ID:   "P07",
		Rule: "distinct documents (by structure and transform kind) transformed by the real code with all points, normals, plugins and world transforms compared against a float64 model",
		Assumptions: []string{"transforms are finite affine matrices with condition number below about 1e3",
			"world transforms of objects are compared for scale/rotation/mirror/translation transforms that keep translation-rotation-scale objects representable"},
		Require: []string{"vertex", "normal", "bone", "shape", "joint", "world_nested", "composed", "mirror", "nonuniform"},
		Cases:   xformCases,
	})
	register(&Prop{
		ID:          "P08",
		Rule:        "distinct documents (by structure) on which morphs were applied or bones posed by the real code and compared with a float64 model",
		Assumptions: []string{"object names and UIDs are unique", "vertex weights of the posed bones are in 0..100 and sum to at most 100 per vertex"},
		Require:     []string{"morph_applied", "morph_rejected", "material_morph", "sibling_target", "pose", "pose_descendant", "pose_blended", "pose_target", "adjust", "pose_shape", "morph_sequence"},
		Cases:       morphCases,
	})
}

func genAffine(r *rand.Rand, kind int) M4 {
	s := func() float64 { return []float64{0.5, 2, 1, 80, 0.08, -1, -2, 3, 0.25, -0.1}[r.Intn(10)] }
	switch kind {
	case 0: // non uniform axis scale (the command line's -scaleX...)
		return mScale(V3{s(), s(), s()})
	case 1: // similarity
		u := math.Abs(s())
		m := mTRS(rv3(r, 50), rquat(r), V3{u, u, u})
		return m4(m.g())
	case 2: // rotate 180 around Y
		u := math.Abs(s())
		return mScale(V3{-u, u, -u})
	case 3: // mirrored similarity
		u := math.Abs(s())
		m := mTRS(rv3(r, 50), rquat(r), V3{u, u, u}).mul(mScale(V3{-1, 1, 1}))
		return m4(m.g())
	case 4: // translation only
		return m4(mTranslate(rv3(r, 100)).g())
	}
	// general affine, well conditioned
	for {
		m := mTRS(rv3(r, 20), rquat(r), V3{0.5 + r.Float64()*2, 0.5 + r.Float64()*2, 0.5 + r.Float64()*2}).mul(mQuat(rquat(r)))
		if r.Intn(2) == 0 {
			m = m.mul(mScale(V3{1, -1, 1}))
		}
		return m4(m.g())
	}
}

func absApply(m M4, v V3) float64 {
	s := 0.0
	for i := 0; i < 3; i++ {
		s = math.Max(s, math.Abs(m[i]*v[0])+math.Abs(m[4+i]*v[1])+math.Abs(m[8+i]*v[2])+math.Abs(m[12+i]))
	}
	return s
}

// tameMQO makes object transforms numerically reasonable.
func tameMQO(r *rand.Rand, d *mqo.Document) {
	for _, o := range d.Objects {
		o.Rotation = pv(geom.Vector3{X: (r.Float32() - 0.5) * 170, Y: (r.Float32() - 0.5) * 360, Z: (r.Float32() - 0.5) * 360})
		switch r.Intn(5) {
		case 0:
			o.Rotation = pv(geom.Vector3{})
		case 1:
			o.Rotation = pv(geom.Vector3{X: float32(r.Intn(5)-2) * 90, Y: float32(r.Intn(5)-2) * 90, Z: float32(r.Intn(5)-2) * 90})
		}
		o.Scale = pv(geom.Vector3{X: 0.3 + r.Float32()*3, Y: 0.3 + r.Float32()*3, Z: 0.3 + r.Float32()*3})
		if r.Intn(2) == 0 {
			o.Scale = pv(geom.Vector3{X: 1, Y: 1, Z: 1})
		}
		o.Translation = rv3(r, 100).g()
		if r.Intn(4) == 0 {
			o.Translation = pv(geom.Vector3{})
		}
	}
}

func refLocal(o *mqo.Object) M4 {
	r := o.Rotation
	return mTranslate(v3(o.Translation)).mul(mEuler("YXZ", float64(r.X)*math.Pi/180, float64(r.Y)*math.Pi/180, float64(r.Z)*math.Pi/180)).mul(mScale(v3(o.Scale)))
}

// refWorlds accumulates local transforms along the depth tree.
func refWorlds(d *mqo.Document) []M4 {
	out := make([]M4, len(d.Objects))
	for i, o := range d.Objects {
		p := ident
		for j := i - 1; j >= 0; j-- {
			if d.Objects[j].Depth < o.Depth {
				p = out[j]
				break
			}
		}
		out[i] = p.mul(refLocal(o))
	}
	return out
}

func structSig(d *mqo.Document) string {
	s := ""
	for _, o := range d.Objects {
		s += fmt.Sprintf("o%d:%d:%d ", o.Depth, len(o.Vertexes), len(o.Faces))
	}
	for _, p := range d.Plugins {
		s += reflect.TypeOf(p).String()
	}
	return s
}

// checkTransformed asserts that got is want0 (the document before) moved by T.
func checkTransformed(c *C, before, got *mqo.Document, T M4, kind int, slack float64) {
	inv, det := T.inverse()
	if det == 0 {
		must(fmt.Errorf("singular"))
	}
	nT := inv.transpose()
	if len(before.Objects) != len(got.Objects) {
		c.Fatalf("number of objects changed: %d -> %d", len(before.Objects), len(got.Objects))
	}
	pt := func(where string, a, b V3) {
		want := T.apply(a)
		tol := slack * (8*eps32*absApply(T, a) + 1e-30)
		for k := range want {
			if !near(b[k], want[k], tol) {
				c.Fatalf("%s: %v moved by %v should be %v, got %v (tolerance %g)", where, a, T, want, b, tol)
			}
		}
	}
	bw, gw := refWorlds(before), got.GetWorldTransforms()
	for i, o := range before.Objects {
		g := got.Objects[i]
		if len(o.Vertexes) != len(g.Vertexes) || len(o.Faces) != len(g.Faces) {
			c.Fatalf("object %d changed shape: %d/%d -> %d/%d", i, len(o.Vertexes), len(o.Faces), len(g.Vertexes), len(g.Faces))
		}
		for k := range o.Vertexes {
			pt(fmt.Sprintf("object %d vertex %d", i, k), v3(o.Vertexes[k]), v3(g.Vertexes[k]))
			c.Obs("vertex")
		}
		for k, f := range o.Faces {
			gf := g.Faces[k]
			if !reflect.DeepEqual(f.Verts, gf.Verts) || !reflect.DeepEqual(f.UVs, gf.UVs) || f.Material != gf.Material || len(f.Normals) != len(gf.Normals) {
				c.Fatalf("object %d face %d changed: %v -> %v", i, k, f, gf)
			}
			for n := range f.Normals {
				if (f.Normals[n] == nil) != (gf.Normals[n] == nil) {
					c.Fatalf("object %d face %d: normal %d appeared or vanished", i, k, n)
				}
				if f.Normals[n] == nil {
					continue
				}
				a, b := v3(f.Normals[n]), v3(gf.Normals[n])
				if a.len() < 1e-20 {
					continue
				}
				want := nT.applyDir(a).unit()
				if !(want.dist(b.unit()) <= 1e-3) {
					c.Fatalf("object %d face %d: normal %v should point to %v, got %v", i, k, a, want, b)
				}
				c.Obs("normal")
			}
		}
		if (o.InternalTransform == nil) != (g.InternalTransform == nil) {
			c.Fatalf("object %d: internal transform lost", i)
		}
		if o.InternalTransform != nil {
			want := T.mul(m4(o.InternalTransform))
			if got := m4(g.InternalTransform); !(got.diff(want) <= slack*1e-5*(1+T.absmul(m4(o.InternalTransform)).norm())) {
				c.Fatalf("object %d: internal transform %v should be %v", i, got, want)
			}
			c.Obs("internal")
		}
		uniform := kind >= 1 && kind <= 4
		rotated := false // a rotated ancestor or object under non-uniform scale would need shear
		for j := i; j >= 0; j-- {
			if *before.Objects[j].Rotation != (geom.Vector3{}) {
				rotated = true
			}
		}
		if kind != 5 && (uniform || !rotated) {
			want := T.mul(bw[i])
			m := gw[g]
			if m == nil {
				c.Fatalf("object %d has no world transform", i)
			}
			if got := m4(m); !(got.diff(want) <= slack*3e-3*(1e-3+T.absmul(bw[i]).norm())) {
				c.Fatalf("object %d (depth %d): world transform is %v, want %v", i, g.Depth, got, want)
			}
			c.Obs("world")
			if o.Depth > 0 {
				c.Obs("world_nested")
			}
			if kind == 0 {
				c.Obs("nonuniform")
			}
		}
		// everything that is not geometry stays
		d := &differ{skip: map[string]bool{"Vertexes": true, "Faces": true, "Scale": true, "Rotation": true, "Translation": true, "InternalTransform": true}}
		d.walk(fmt.Sprintf("objects[%d]", i), reflect.ValueOf(o), reflect.ValueOf(g))
		if len(d.out) > 0 {
			c.Fatalf("transforming changed %v", d.out)
		}
	}
	if d := deepDiff(before.Materials, got.Materials, 0); len(d) > 0 {
		c.Fatalf("materials changed: %v", d)
	}
	if d := deepDiff(before.Scene, got.Scene, 0); len(d) > 0 {
		c.Fatalf("scene changed: %v", d)
	}
	if len(before.Plugins) != len(got.Plugins) {
		c.Fatalf("plugins changed")
	}
	for i, p := range before.Plugins {
		switch p := p.(type) {
		case *mqo.BonePlugin:
			q := got.Plugins[i].(*mqo.BonePlugin)
			if len(p.Bones()) != len(q.Bones()) {
				c.Fatalf("number of bones changed")
			}
			for k, b := range p.Bones() {
				pt(fmt.Sprintf("bone %d", k), v3(&b.Pos.Vector3), v3(&q.Bones()[k].Pos.Vector3))
				c.Obs("bone")
			}
			d := &differ{skip: map[string]bool{"Pos": true, "XMLName": true}}
			d.walk("bones", reflect.ValueOf(p), reflect.ValueOf(q))
			if len(d.out) > 0 {
				c.Fatalf("transforming changed %v", d.out)
			}
		case *mqo.PhysicsPlugin:
			q := got.Plugins[i].(*mqo.PhysicsPlugin)
			if len(p.Bodies) != len(q.Bodies) || len(p.Constraints) != len(q.Constraints) {
				c.Fatalf("physics changed")
			}
			sc := V3{V3{T[0], T[1], T[2]}.len(), V3{T[4], T[5], T[6]}.len(), V3{T[8], T[9], T[10]}.len()}
			for k, b := range p.Bodies {
				for j, s := range b.Shapes {
					s2 := q.Bodies[k].Shapes[j]
					pt(fmt.Sprintf("body %d shape %d", k, j), v3(s.Position.Vec3()), v3(s2.Position.Vec3()))
					if kind != 5 {
						a, b := v3(s.Size.Vec3()), v3(s2.Size.Vec3())
						for n := range a {
							if want := math.Abs(a[n]) * sc[n]; !near(b[n], want, slack*1e-5*want) {
								c.Fatalf("body %d shape %d: size %v under scale %v became %v", k, j, a, sc, b)
							}
						}
					}
					c.Obs("shape")
				}
			}
			for k, j := range p.Constraints {
				pt(fmt.Sprintf("joint %d", k), v3(j.Position.Vec3()), v3(q.Constraints[k].Position.Vec3()))
				c.Obs("joint")
			}
			d := &differ{skip: map[string]bool{"Position": true, "Size": true, "Rotation": true, "XMLName": true}}
			d.walk("physics", reflect.ValueOf(p), reflect.ValueOf(q))
			if len(d.out) > 0 {
				c.Fatalf("transforming changed %v", d.out)
			}
		default:
			if d := deepDiff(p, got.Plugins[i], 0); len(d) > 0 {
				c.Fatalf("plugin changed: %v", d)
			}
		}
	}
	if kind == 2 || kind == 3 {
		c.Obs("mirror")
	}
}

func xformCases(r *Run) {
	r.Repeat("apply", r.N(1500, 20000), func(c *C) {
		d := genMQO(c.R, true)
		tameMQO(c.R, d)
		for _, o := range d.Objects {
			if c.R.Intn(4) == 0 {
				o.InternalTransform = m4(mTRS(rv3(c.R, 10), rquat(c.R), V3{1, 2, 0.5}).g()).g()
			}
		}
		before := cloneMQO(d)
		kind := c.R.Intn(6)
		T := genAffine(c.R, kind)
		m := T.g()
		m0 := *m
		d.ApplyTransform(m)
		if *m != m0 {
			c.Failf("the transform passed in was modified")
		}
		c.Sig("%d %s", kind, structSig(d))
		checkTransformed(c, before, d, T, kind, 1)
	})
	r.Repeat("compose", r.N(300, 4000), func(c *C) {
		d := genMQO(c.R, true)
		tameMQO(c.R, d)
		before := cloneMQO(d)
		kinds := []int{1, 2, 4}
		T := ident
		n := 2 + c.R.Intn(3)
		for i := 0; i < n; i++ {
			t := genAffine(c.R, kinds[c.R.Intn(3)])
			d.ApplyTransform(t.g())
			T = t.mul(T)
		}
		c.Sig("compose %d %s", n, structSig(d))
		// rounding grows with the sizes of the intermediate results
		checkTransformedLoose(c, before, d, T)
		c.Obs("composed")
	})
	r.Repeat("back", r.N(300, 4000), func(c *C) {
		// doing and undoing a transform returns to the start
		d := genMQO(c.R, true)
		tameMQO(c.R, d)
		before := cloneMQO(d)
		T := genAffine(c.R, 1+c.R.Intn(3))
		inv, _ := T.inverse()
		d.ApplyTransform(T.g())
		d.ApplyTransform(inv.g())
		checkTransformedLoose(c, before, d, ident)
		c.Obs("composed")
		c.Sig("back %s", structSig(d))
	})
	r.Repeat("worlds", r.N(400, 4000), func(c *C) {
		d := genMQO(c.R, false)
		tameMQO(c.R, d)
		// deeper trees with skipped levels
		depth := 0
		for _, o := range d.Objects {
			o.Depth = depth
			depth = c.R.Intn(depth + 3)
		}
		before := cloneMQO(d)
		want, got := refWorlds(d), d.GetWorldTransforms()
		for i, o := range d.Objects {
			if got[o] == nil {
				c.Fatalf("object %d has no world transform", i)
			}
			if m := m4(got[o]); !(m.diff(want[i]) <= 3e-3*(1e-3+want[i].norm())*float64(1+o.Depth)) {
				c.Fatalf("object %d (depth %d): world transform %v, want %v", i, o.Depth, m, want[i])
			}
			c.Obs("world")
			// setting and getting a local transform agree
			l := refLocal(o)
			o2 := mqo.NewObject("x")
			o2.SetLocalTransform(l.g())
			if g := refLocal(o2); !(g.diff(l) <= 2e-3*(1e-3+l.norm())) {
				c.Fatalf("object %d: setting the local transform %v gives %v", i, l, g)
			}
		}
		if dd := diffMQO(before, d); len(dd) > 0 {
			c.Fatalf("computing world transforms changed the document: %v", dd)
		}
		c.Sig("worlds %s", structSig(d))
	})
}

// checkTransformedLoose compares positions and world transforms with a
// tolerance relative to the extent of the document.
func checkTransformedLoose(c *C, before, got *mqo.Document, T M4) {
	ext := 1.0
	grow := func(v V3) {
		ext = math.Max(ext, v.len())
		ext = math.Max(ext, T.apply(v).len())
	}
	for _, o := range before.Objects {
		for _, v := range o.Vertexes {
			grow(v3(v))
		}
		grow(v3(o.Translation))
	}
	for _, b := range mqo.GetBonePlugin(before).Bones() {
		grow(v3(&b.Pos.Vector3))
	}
	tol := ext*1e-3 + 0.5
	for i, o := range before.Objects {
		for k := range o.Vertexes {
			if a, b := T.apply(v3(o.Vertexes[k])), v3(got.Objects[i].Vertexes[k]); !(a.dist(b) <= tol) {
				c.Fatalf("object %d vertex %d: %v, want %v", i, k, b, a)
			}
			c.Obs("vertex")
		}
	}
	bb := mqo.GetBonePlugin(got).Bones()
	for i, b := range mqo.GetBonePlugin(before).Bones() {
		if a, g := T.apply(v3(&b.Pos.Vector3)), v3(&bb[i].Pos.Vector3); !(a.dist(g) <= tol) {
			c.Fatalf("bone %d: %v, want %v", i, g, a)
		}
	}
	want, gw := refWorlds(before), got.GetWorldTransforms()
	for i, o := range got.Objects {
		w := T.mul(want[i])
		if m := m4(gw[o]); !(m.diff(w) <= tol+5e-3*w.norm()) {
			c.Fatalf("object %d: world transform %v, want %v", i, m, w)
		}
	}
}

// ---------------------------------------------------------------- P08

// genMorphDoc builds objects with base/target relations and materials with
// material morphs.
func genMorphDoc(r *rand.Rand) *mqo.Document {
	d := mqo.NewDocument()
	nb := 1 + r.Intn(3)
	mp := mqo.GetMorphPlugin(d)
	uid := 1
	names := []string{"a", "b", "笑い", "c", "d", "e", "あ"}
	mkObj := func(name string, n int) *mqo.Object {
		o := mqo.NewObject(name)
		o.UID = uid
		uid += 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			o.Vertexes = append(o.Vertexes, rv3(r, 100).g())
		}
		for k := r.Intn(5); k > 0 && n > 0; k-- {
			o.Faces = append(o.Faces, &mqo.Face{Verts: []int{r.Intn(n), r.Intn(n), r.Intn(n)}, UVs: []geom.Vector2{{X: 0.1}, {X: 0.2}, {X: 0.3}}})
		}
		d.Objects = append(d.Objects, o)
		return o
	}
	for i := 0; i < nb; i++ {
		n := r.Intn(8)
		base := mkObj(fmt.Sprintf("base%d", i), n)
		l := &mqo.MorphTargetList{Base: base.Name}
		for j, p := range r.Perm(len(names))[:r.Intn(4)] {
			tn := fmt.Sprintf("%s%d", names[p], i)
			k := n
			switch r.Intn(8) {
			case 0:
				k = n + 1 + r.Intn(2) // vertex count mismatch
			}
			if r.Intn(10) > 0 { // else the target object is missing
				o := mkObj(tn, k)
				if k == n && j >= 0 && r.Intn(2) == 0 { // most vertices equal the base
					for v := range o.Vertexes {
						if r.Intn(3) > 0 {
							*o.Vertexes[v] = *base.Vertexes[v]
						}
					}
				}
			}
			l.Target = append(l.Target, &mqo.MorphTarget{Name: tn, Param: r.Intn(100)})
		}
		if lists := mp.Morphs(); len(lists) > 0 && r.Intn(3) == 0 {
			// the same target belongs to several bases
			if o := lists[r.Intn(len(lists))]; len(o.Target) > 0 {
				l.Target = append(l.Target, &mqo.MorphTarget{Name: o.Target[r.Intn(len(o.Target))].Name})
			}
		}
		if r.Intn(12) == 0 {
			l.Base = "missing"
		}
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
	}
	if r.Intn(3) == 0 {
		mkObj("free", 4)
	}
	r.Shuffle(len(d.Objects), func(i, j int) { d.Objects[i], d.Objects[j] = d.Objects[j], d.Objects[i] })
	for i := r.Intn(4); i > 0; i-- {
		d.Materials = append(d.Materials, &mqo.Material{Name: fmt.Sprintf("mat%d", i), Color: col(r)})
	}
	for _, l := range mp.Morphs() {
		for _, t := range l.Target {
			if r.Intn(3) == 0 {
				d.Materials = append(d.Materials, &mqo.Material{Name: fmt.Sprintf("$MORPH:%s:mat%d", t.Name, 1+r.Intn(4)), Color: col(r)})
			}
		}
	}
	if r.Intn(4) == 0 {
		d.Materials = append(d.Materials, &mqo.Material{Name: "$MORPH:matonly:mat1", Color: col(r)})
	}
	r.Shuffle(len(d.Materials), func(i, j int) { d.Materials[i], d.Materials[j] = d.Materials[j], d.Materials[i] })
	// names in materials must be unique for the reference to be well defined
	seen := map[string]bool{}
	var ms []*mqo.Material
	for _, m := range d.Materials {
		if !seen[m.Name] {
			seen[m.Name] = true
			ms = append(ms, m)
		}
	}
	d.Materials = ms
	return d
}

func col(r *rand.Rand) geom.Vector4 {
	return geom.Vector4{X: rweight(r), Y: rweight(r), Z: rweight(r), W: rweight(r)}
}

type morphState struct {
	pos map[string][]V3
	mat map[string][4]float64
}

func stateOf(d *mqo.Document) *morphState {
	s := &morphState{map[string][]V3{}, map[string][4]float64{}}
	for _, o := range d.Objects {
		p := []V3{}
		for _, v := range o.Vertexes {
			p = append(p, v3(v))
		}
		s.pos[o.Name] = p
	}
	for _, m := range d.Materials {
		s.mat[m.Name] = [4]float64{float64(m.Color.X), float64(m.Color.Y), float64(m.Color.Z), float64(m.Color.W)}
	}
	return s
}

// refMorph is the specification of applying a morph: the base moves by
// value*(target-base), every other target of the same base moves along, the
// applied target itself stays.
func (s *morphState) refMorph(c *C, lists []*mqo.MorphTargetList, name string, v float64) bool {
	any := false
	for _, l := range lists {
		for _, t := range l.Target {
			if t.Name != name {
				continue
			}
			b, ok1 := s.pos[l.Base]
			tg, ok2 := s.pos[name]
			if !ok1 || !ok2 || len(b) != len(tg) {
				continue
			}
			any = true
			diff := make([]V3, len(b))
			for i := range b {
				diff[i] = tg[i].sub(b[i]).mul(v)
			}
			for _, o := range l.Target {
				if p, ok := s.pos[o.Name]; ok && o.Name != name && len(p) == len(b) {
					for i := range p {
						p[i] = p[i].add(diff[i])
					}
					if len(p) > 0 {
						c.Obs("sibling_target")
					}
				}
			}
			for i := range b {
				b[i] = b[i].add(diff[i])
			}
		}
	}
	return any
}

func (s *morphState) refMatMorph(c *C, name string, v float64, order []*mqo.Material) {
	p := "$MORPH:" + name + ":"
	for _, m := range order {
		if len(m.Name) > len(p) && m.Name[:len(p)] == p {
			if t, ok := s.mat[m.Name[len(p):]]; ok {
				from := s.mat[m.Name]
				for i := range t {
					t[i] = t[i]*(1-v) + from[i]*v
				}
				s.mat[m.Name[len(p):]] = t
				c.Obs("material_morph")
			}
		}
	}
}

func (s *morphState) compare(c *C, d *mqo.Document, what string, tol float64) {
	g := stateOf(d)
	for n, p := range s.pos {
		if len(g.pos[n]) != len(p) {
			c.Fatalf("%s: object %s has %d vertexes, want %d", what, n, len(g.pos[n]), len(p))
		}
		for i := range p {
			if !(p[i].dist(g.pos[n][i]) <= tol) {
				c.Fatalf("%s: object %s vertex %d is at %v, want %v", what, n, i, g.pos[n][i], p[i])
			}
		}
	}
	for n, m := range s.mat {
		for i := range m {
			if !near(m[i], g.mat[n][i], 1e-5) {
				c.Fatalf("%s: material %s has colour %v, want %v", what, n, g.mat[n], m)
			}
		}
	}
}

// skipGeo compares everything except positions and colours.
func nonGeo(a, b *mqo.Document) []string {
	d := &differ{skip: map[string]bool{"Vertexes": true, "Color": true, "Pos": true, "RotationOffset": true, "XMLName": true, "Position": true, "Rotation": true}}
	d.walk("doc", reflect.ValueOf(a), reflect.ValueOf(b))
	return d.out
}

func morphCases(r *Run) {
	r.Repeat("morph", r.N(1500, 20000), func(c *C) {
		d := genMorphDoc(c.R)
		before := cloneMQO(d)
		mp := mqo.GetMorphPlugin(d)
		st := stateOf(d)
		var all []string
		for _, l := range mp.Morphs() {
			for _, t := range l.Target {
				all = append(all, t.Name)
			}
		}
		all = append(all, "no such morph", "matonly")
		n := 1 + c.R.Intn(3)
		if n > 1 {
			c.Obs("morph_sequence")
		}
		for i := 0; i < n; i++ {
			name := all[c.R.Intn(len(all))]
			v := []float32{0, 1, 0.5, rweight(c.R), -0.5, 2}[c.R.Intn(6)]
			want := st.refMorph(c, mp.Morphs(), name, float64(v))
			st.refMatMorph(c, name, float64(v), d.Materials)
			got := mp.Apply(d, name, v)
			if got != want {
				c.Fatalf("applying %q reported %v, want %v", name, got, want)
			}
			if want {
				c.Obs("morph_applied")
			} else {
				c.Obs("morph_rejected")
			}
			st.compare(c, d, fmt.Sprintf("after applying %q %v", name, v), 1e-2)
			if v == 1 && want {
				c.Obs("full_morph")
			}
		}
		if dd := nonGeo(before, d); len(dd) > 0 {
			c.Fatalf("applying a morph changed %v", dd)
		}
		c.Sig("%d %s", n, structSig(d))
	})
	r.Repeat("pose", r.N(1500, 20000), func(c *C) {
		poseCase(c)
	})
}

func poseCase(c *C) {
	r := c.R
	d := mqo.NewDocument()
	bp := mqo.GetBonePlugin(d)
	uid := 1 + r.Intn(3)
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		o := mqo.NewObject(fmt.Sprintf("obj%d", i))
		o.UID = uid
		uid += 1 + r.Intn(4)
		nv := r.Intn(10)
		for k := 0; k < nv; k++ {
			o.Vertexes = append(o.Vertexes, rv3(r, 100).g())
		}
		if nv > 0 && r.Intn(3) == 0 {
			for k, p := range r.Perm(nv) {
				o.VertexByUID[200+k*3] = p
			}
		}
		d.Objects = append(d.Objects, o)
	}
	// morph targets of the first object
	if r.Intn(2) == 0 {
		base := d.Objects[r.Intn(len(d.Objects))]
		l := &mqo.MorphTargetList{Base: base.Name}
		for k := 1 + r.Intn(2); k > 0; k-- {
			t := mqo.NewObject(fmt.Sprintf("target%d", k))
			t.UID = uid
			uid++
			for range base.Vertexes {
				t.Vertexes = append(t.Vertexes, rv3(r, 100).g())
			}
			for k, v := range base.VertexByUID {
				t.VertexByUID[k] = v
			}
			d.Objects = append(d.Objects, t)
			l.Target = append(l.Target, &mqo.MorphTarget{Name: t.Name})
		}
		mp := mqo.GetMorphPlugin(d)
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
	}
	// bones in arbitrary order and with arbitrary ids
	n := 1 + r.Intn(7)
	ids := r.Perm(20)[:n]
	var bones []*mqo.Bone
	for i := 0; i < n; i++ {
		b := &mqo.Bone{ID: ids[i] + 1, Name: fmt.Sprintf("bone%d", i), Pos: mqo.Vector3Attr{Vector3: *rv3(r, 100).g()}}
		if i > 0 && r.Intn(5) > 0 {
			b.Parent = bones[r.Intn(i)].ID
		}
		bones = append(bones, b)
	}
	// weights: at most 100 per vertex, split over some bones
	weights := map[*geom.Vector3]map[*mqo.Bone]float64{}
	targetsOf := map[*mqo.Object][]*mqo.Object{}
	byName := map[string]*mqo.Object{}
	for _, o := range d.Objects {
		byName[o.Name] = o
	}
	for _, p := range d.Plugins {
		if mp, ok := p.(*mqo.MorphPlugin); ok {
			for _, l := range mp.Morphs() {
				for _, t := range l.Target {
					targetsOf[byName[l.Base]] = append(targetsOf[byName[l.Base]], byName[t.Name])
				}
			}
		}
	}
	for _, o := range d.Objects {
		if len(o.Name) > 6 && o.Name[:6] == "target" {
			continue
		}
		for vi, v := range o.Vertexes {
			if r.Intn(5) == 0 {
				continue
			}
			parts := [][]float32{{100}, {50, 50}, {25, 75}, {60}, {30, 30, 40}, {0, 100}}[r.Intn(6)]
			id := vi + 1
			for u, k := range o.VertexByUID {
				if k == vi {
					id = u
				}
			}
			for k, bi := range r.Perm(n) {
				if k >= len(parts) {
					break
				}
				bones[bi].SetVertexWeight(o.UID, id, parts[k])
				for _, vv := range append([]*geom.Vector3{v}, targetVerts(targetsOf[o], vi)...) {
					if weights[vv] == nil {
						weights[vv] = map[*mqo.Bone]float64{}
					}
					weights[vv][bones[bi]] += float64(parts[k]) / 100
				}
			}
		}
	}
	r.Shuffle(n, func(i, j int) { bones[i], bones[j] = bones[j], bones[i] })
	bp.SetBones(bones)
	// physics shapes following bones
	type shp struct {
		s    *mqo.PhysicsShape
		bone int
	}
	var shapes []shp
	if r.Intn(3) == 0 {
		pp := mqo.GetPhysicsPlugin(d)
		for k := 1 + r.Intn(3); k > 0; k-- {
			id := 0
			if r.Intn(4) > 0 {
				id = bones[r.Intn(n)].ID
			}
			s := &mqo.PhysicsShape{Type: "BOX", Position: mqo.Vector3XmlAttr(*rv3(r, 100).g()), Rotation: mqo.Vector3XmlAttr(*rv3(r, 1).g()), Size: mqo.Vector3XmlAttr(*rv3(r, 1).g())}
			pp.Bodies = append(pp.Bodies, &mqo.PhysicsBody{TargetBoneID: id, Shapes: []*mqo.PhysicsShape{s}})
			shapes = append(shapes, shp{s, id})
		}
	}
	base := bones[r.Intn(n)]
	byID := map[int]*mqo.Bone{}
	for _, b := range bones {
		byID[b.ID] = b
	}
	inTree := func(b *mqo.Bone) bool {
		for k := 0; b != nil && k < 50; k++ {
			if b == base {
				return true
			}
			b = byID[b.Parent]
		}
		return false
	}
	// record the state before
	before := cloneMQO(d)
	vert0 := map[*geom.Vector3]V3{}
	for _, o := range d.Objects {
		for _, v := range o.Vertexes {
			vert0[v] = v3(v)
		}
	}
	bone0 := map[*mqo.Bone]V3{}
	for _, b := range bones {
		bone0[b] = v3(&b.Pos.Vector3)
	}
	type pr struct{ p, r V3 }
	shape0 := map[*mqo.PhysicsShape]pr{}
	for _, s := range shapes {
		shape0[s.s] = pr{v3(s.s.Position.Vec3()), v3(s.s.Rotation.Vec3())}
	}
	q := rquat(r)
	var R M4
	if r.Intn(3) > 0 {
		called := map[*mqo.Bone]int{}
		d.BoneTransform(base, q.g(), func(b *mqo.Bone) { called[b]++ })
		R = mQuat(q)
		for _, b := range bones {
			want := 0
			if inTree(b) {
				want = 1
			}
			if called[b] != want {
				c.Fatalf("bone %s (descendant: %v) was visited %d times", b.Name, inTree(b), called[b])
			}
		}
		c.Obs("pose")
	} else {
		// longest child direction turned to the X axis around Z
		var far V3
		max := 0.0
		for _, b := range bones {
			if b.Parent == base.ID {
				if v := bone0[b].sub(bone0[base]); v.dot(v) > max {
					max, far = v.dot(v), v
				}
			}
		}
		d.BoneAdjustX(base)
		R = ident
		if max > 0 {
			a := math.Atan2(far[1], far[0])
			if math.Abs(a) < math.Pi/2 {
				R = mAxis(2, -a)
			} else {
				R = mAxis(2, math.Pi-a)
			}
			c.Obs("adjust")
			for _, b := range bones {
				if b.Parent == base.ID && bone0[b].sub(bone0[base]) == far {
					if g := v3(&b.Pos.Vector3); !near(g[1], bone0[base][1], 2e-3) {
						c.Fatalf("after the adjustment the child bone is at height %v, its parent at %v", g[1], bone0[base][1])
					}
					if g := v3(&b.Pos.Vector3); g[0]-bone0[base][0] > 1e-3 != (far[0] > 1e-3) && math.Abs(far[0]) > 1e-2 {
						c.Fatalf("the adjustment turned the limb to the other side: %v -> %v", far, g.sub(bone0[base]))
					}
				}
			}
		}
	}
	piv := bone0[base]
	rot := func(p V3) V3 { return R.applyDir(p.sub(piv)).add(piv) }
	for _, b := range bones {
		want := bone0[b]
		if inTree(b) {
			want = rot(want)
			if b != base {
				c.Obs("pose_descendant")
			}
		}
		if g := v3(&b.Pos.Vector3); !(g.dist(want) <= 2e-3) {
			c.Fatalf("bone %s (descendant %v) is at %v, want %v", b.Name, inTree(b), g, want)
		}
	}
	for _, o := range d.Objects {
		for vi, v := range o.Vertexes {
			p, ok := vert0[v]
			if !ok {
				c.Fatalf("vertex object replaced")
			}
			w := 0.0
			for b, x := range weights[v] {
				if inTree(b) {
					w += x
				}
			}
			want := rot(p).mul(w).add(p.mul(1 - w))
			if g := v3(v); !(g.dist(want) <= 3e-3) {
				c.Fatalf("vertex %d of %s (weight %v) is at %v, want %v", vi, o.Name, w, g, want)
			}
			if w > 0 && w < 0.99 {
				c.Obs("pose_blended")
			}
			if w > 0 && len(o.Name) > 6 && o.Name[:6] == "target" {
				c.Obs("pose_target")
			}
		}
	}
	for _, s := range shapes {
		wp, wr := shape0[s.s].p, mEuler("XYZ", shape0[s.s].r[0], shape0[s.s].r[1], shape0[s.s].r[2])
		if s.bone != 0 && inTree(byID[s.bone]) {
			wp, wr = rot(wp), R.mul(wr)
			c.Obs("pose_shape")
		}
		gr := v3(s.s.Rotation.Vec3())
		if g := v3(s.s.Position.Vec3()); !(g.dist(wp) <= 3e-3) {
			c.Fatalf("collider of bone %d is at %v, want %v", s.bone, g, wp)
		}
		if g := mEuler("XYZ", gr[0], gr[1], gr[2]); !(g.diff(wr) <= 5e-3) {
			c.Fatalf("collider of bone %d has rotation %v, want matrix %v", s.bone, gr, wr)
		}
	}
	mqo.GetMorphPlugin(before)
	mqo.GetMorphPlugin(d)
	if dd := nonGeo(before, d); len(dd) > 0 {
		c.Fatalf("posing changed %v", dd)
	}
	c.Sig("pose %d %s", n, structSig(d))
}

func targetVerts(objs []*mqo.Object, i int) (out []*geom.Vector3) {
	for _, o := range objs {
		out = append(out, o.Vertexes[i])
	}
	return
}
