package main

// Physics bodies and lights in glTF files (P34).

import (
	"encoding/json"
	"fmt"
	"math"
	"path/filepath"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/mqo"
)

func init() {
	register(&Prop{
		ID:          "P34",
		Rule:        "seeded documents with bodies on bones, on objects and on nothing, several bodies and shapes per node, and with lights on visible and hidden objects are converted with all combinations of the options through library and command line tool; the output is decoded independently and every extension object is compared with the document",
		Assumptions: []string{"shape rotations and joints are not converted", "meshes of objects with lights are not claimed"},
		Require:     []string{"bone_body", "object_body", "free_body", "two_bodies", "two_shapes", "static", "dynamic", "light", "light_moved", "hidden_light", "light_off", "physics_off", "cli", "api", "flat"},
		Cases: func(r *Run) {
			r.Repeat("physics", r.N(600, 8000), gltfPhysicsCase)
			r.Repeat("lights", r.N(400, 5000), gltfLightCase)
		},
	})
}

type physShape struct {
	BoundingBox       []float64 `json:"boundingBox"`
	ShapeType         string    `json:"shapeType"`
	OffsetTranslation []float64 `json:"offsetTranslation"`
	OffsetScale       []float64 `json:"offsetScale"`
}
type physBody struct {
	Shapes []physShape `json:"collisionShapes"`
	Mass   float64     `json:"mass"`
	Static bool        `json:"static"`
	Groups int         `json:"collisionGroups"`
	Masks  int         `json:"collisionMasks"`
}

func gltfPhysicsCase(c *C) {
	r := c.R
	d, _, _ := genCliDoc(c)
	names := map[string]int{}
	for _, o := range d.Objects {
		names[o.Name]++
	}
	bones := mqo.GetBonePlugin(d).Bones()
	for i, b := range bones {
		b.Name = fmt.Sprint("bone", i)
		names[b.Name]++
	}
	d.FixObjectID()
	ids := map[int]int{}
	for _, o := range d.Objects {
		ids[o.UID]++
	}
	morphs := map[string]bool{}
	for _, m := range mqo.GetMorphPlugin(d).Morphs() {
		for _, t := range m.Target {
			morphs[t.Name] = true
		}
	}
	p := mqo.GetPhysicsPlugin(d)
	p.Bodies = nil
	rf := func() float32 { return float32(math.Round(r.NormFloat64()*2000) / 8) }
	opt := &converter.MQOToGLTFOption{ConvertPhysics: r.Intn(4) > 0, IgnoreObjectHierarchy: r.Intn(3) == 0}
	scale := 0.001
	want := map[string]*physBody{}
	objName := map[int]string{}
	for _, o := range d.Objects {
		objName[o.UID] = o.Name
	}
	boneBodies, objBodies := []*mqo.PhysicsBody{}, []*mqo.PhysicsBody{}
	for i, n := 0, r.Intn(8); i < n; i++ {
		b := &mqo.PhysicsBody{Name: fmt.Sprint("b", i), Mass: float32(r.Intn(40)) / 4, Kinematic: r.Intn(2) == 0, CollisionGroup: r.Intn(16), CollisionMask: r.Intn(65536)}
		for k := r.Intn(3); k >= 0; k-- {
			b.Shapes = append(b.Shapes, &mqo.PhysicsShape{Type: []string{"SPHERE", "CAPSULE", "BOX"}[r.Intn(3)],
				Size:     mqo.Vector3XmlAttr{X: 1 + float32(r.Intn(900)), Y: 1 + float32(r.Intn(900)), Z: 1 + float32(r.Intn(900))},
				Position: mqo.Vector3XmlAttr{X: rf(), Y: rf(), Z: rf()}})
		}
		if len(b.Shapes) > 1 {
			c.Obs("two_shapes")
		}
		switch k := r.Intn(5); {
		case k < 3 && len(bones) > 0:
			b.TargetBoneID = bones[r.Intn(len(bones))].ID
			boneBodies = append(boneBodies, b)
			c.Obs("bone_body")
		case k < 4 && len(d.Objects) > 0:
			b.TargetObjID = d.Objects[r.Intn(len(d.Objects))].UID
			objBodies = append(objBodies, b)
			c.Obs("object_body")
		default:
			c.Obs("free_body")
		}
		p.Bodies = append(p.Bodies, b)
	}
	put := func(name string, b *mqo.PhysicsBody, org V3) {
		w := want[name]
		if w == nil {
			w = &physBody{Groups: b.CollisionGroup, Masks: b.CollisionMask}
			want[name] = w
		} else {
			c.Obs("two_bodies")
		}
		w.Mass += float64(b.Mass)
		w.Static = w.Static || b.Kinematic
		for _, s := range b.Shapes {
			x := V3{float64(s.Position.X), float64(s.Position.Y), float64(s.Position.Z)}.sub(org).mul(scale)
			sz := V3{float64(s.Size.X), float64(s.Size.Y), float64(s.Size.Z)}.mul(scale)
			w.Shapes = append(w.Shapes, physShape{sz[:], s.Type, x[:], sz[:]})
		}
	}
	usable := true
	for _, n := range names {
		usable = usable && n == 1
	}
	for _, n := range ids {
		usable = usable && n == 1
	}
	if !usable {
		c.Obs("ambiguous_names")
		return
	}
	for _, b := range boneBodies {
		for _, x := range bones {
			if x.ID == b.TargetBoneID {
				put(x.Name, b, v3(&x.Pos.Vector3))
				break
			}
		}
	}
	for _, b := range objBodies {
		for _, o := range d.Objects {
			if o.UID != b.TargetObjID || morphs[o.Name] || opt.IgnoreObjectHierarchy && (!o.Visible || len(o.Faces) == 0) {
				continue
			}
			put(o.Name, b, V3{})
		}
	}
	var g *gDoc
	if r.Intn(5) == 0 {
		must(mqo.Save(d, filepath.Join(c.Dir(), "in.mqo")))
		args := []string{}
		if opt.ConvertPhysics {
			args = append(args, "-physics")
		}
		if opt.IgnoreObjectHierarchy {
			args = append(args, "-ignoreHierarchy")
		}
		mustCLI(c, c.Dir(), append(args, "in.mqo", "out.glb")...)
		var err error
		if g, err = loadGltfFile(filepath.Join(c.Dir(), "out.glb")); err != nil {
			c.Fatalf("%v", err)
		}
		c.Obs("cli")
	} else {
		g = convertGltf(c, d, opt, c.Dir())
		c.Obs("api")
	}
	if opt.IgnoreObjectHierarchy {
		c.Obs("flat")
	}
	if !opt.ConvertPhysics {
		want = map[string]*physBody{}
		c.Obs("physics_off")
	}
	used := false
	for _, e := range g.ExtensionsUsed {
		used = used || e == converter.BlenderPhysicsName
	}
	if len(want) > 0 && !used {
		c.Failf("%s is not listed in extensionsUsed", converter.BlenderPhysicsName)
	}
	found := 0
	for _, n := range g.Nodes {
		e, ok := n.Extensions[converter.BlenderPhysicsName]
		w := want[n.Name]
		if !ok {
			if w != nil {
				c.Failf("node %q has no physics body", n.Name)
			}
			continue
		}
		if w == nil {
			c.Failf("node %q has a body: %s", n.Name, e)
			continue
		}
		found++
		var b physBody
		if err := json.Unmarshal(e, &b); err != nil {
			c.Fatalf("%v", err)
		}
		if math.Abs(b.Mass-w.Mass) > 1e-5 || b.Static != w.Static || b.Groups != w.Groups || b.Masks != w.Masks || len(b.Shapes) != len(w.Shapes) {
			c.Failf("body of node %q is %+v, want %+v", n.Name, b, *w)
			continue
		}
		if w.Static {
			c.Obs("static")
		} else {
			c.Obs("dynamic")
		}
		eq := func(a, b []float64) bool {
			if len(a) != 3 {
				return false
			}
			for i := range a {
				if !(math.Abs(a[i]-b[i]) <= 1e-6*(1+math.Abs(b[i]))) {
					return false
				}
			}
			return true
		}
		for i, s := range b.Shapes {
			ws := w.Shapes[i]
			if s.ShapeType != ws.ShapeType || !eq(s.BoundingBox, ws.BoundingBox) || !eq(s.OffsetTranslation, ws.OffsetTranslation) || !eq(s.OffsetScale, ws.OffsetScale) {
				c.Failf("shape %d of node %q is %+v, want %+v", i, n.Name, s, ws)
			}
		}
	}
	if found != len(want) {
		c.Failf("%d nodes have bodies, want %d", found, len(want))
	}
	c.Sig("physics %v %v %d %d", opt.ConvertPhysics, opt.IgnoreObjectHierarchy, len(p.Bodies), len(want))
}

func gltfLightCase(c *C) {
	r := c.R
	d, _, _ := genCliDoc(c)
	opt := &converter.MQOToGLTFOption{ExportLights: r.Intn(4) > 0, IgnoreObjectHierarchy: r.Intn(4) == 0}
	type light struct {
		params jm
		m      M4
		moved  bool
	}
	want := map[string]*light{}
	var order []string
	for i := 0; i < 3; i++ {
		d.Objects = append(d.Objects, mqo.NewObject(fmt.Sprint("lamp", i)))
		d.Objects[len(d.Objects)-1].Depth = r.Intn(3)
	}
	names := map[string]int{}
	for _, o := range d.Objects {
		names[o.Name]++
	}
	for _, b := range mqo.GetBonePlugin(d).Bones() {
		names[b.Name]++
	}
	morphs := map[string]bool{}
	for _, m := range mqo.GetMorphPlugin(d).Morphs() {
		for _, t := range m.Target {
			morphs[t.Name] = true
		}
	}
	for _, o := range d.Objects {
		if names[o.Name] > 1 || r.Intn(2) == 0 {
			continue
		}
		l := &light{params: jm{"type": []string{"point", "spot", "directional"}[r.Intn(3)], "intensity": float64(r.Intn(80)) / 8, "color": ja{float64(r.Intn(5)) / 4, 0.5, 1.0}}, m: mScale(V3{1, 1, 1})}
		if r.Intn(2) == 0 {
			l.params["range"] = float64(1 + r.Intn(9))
		}
		p := map[string]interface{}{}
		for k, v := range l.params {
			p[k] = v
		}
		o.Extra["light"] = p
		if r.Intn(3) > 0 {
			l.m = mTRS(rv3(r, 5000), rquat(r), V3{1, 1, 1})
			l.moved = true
			o.InternalTransform = l.m.g()
		}
		if r.Intn(4) == 0 {
			o.Visible = false
		}
		if !o.Visible {
			c.Obs("hidden_light")
			continue
		}
		if morphs[o.Name] || opt.IgnoreObjectHierarchy && len(o.Faces) == 0 {
			continue
		}
		want[o.Name] = l
		order = append(order, o.Name)
	}
	g := convertGltf(c, d, opt, c.Dir())
	if !opt.ExportLights {
		want, order = map[string]*light{}, nil
		c.Obs("light_off")
	}
	if opt.IgnoreObjectHierarchy {
		c.Obs("flat")
	}
	var ext struct {
		Lights []jm `json:"lights"`
	}
	if e, ok := g.Extensions["KHR_lights_punctual"]; ok {
		must(json.Unmarshal(e, &ext))
		used := false
		for _, n := range g.ExtensionsUsed {
			used = used || n == "KHR_lights_punctual"
		}
		if !used {
			c.Failf("KHR_lights_punctual is not listed in extensionsUsed")
		}
	}
	if len(ext.Lights) != len(order) {
		c.Fatalf("%d lights, want %d", len(ext.Lights), len(order))
	}
	worlds, _ := g.worlds()
	seen := map[int]bool{}
	for i, n := range g.Nodes {
		e, ok := n.Extensions["KHR_lights_punctual"]
		w := want[n.Name]
		if ok != (w != nil) {
			c.Failf("node %q: light %v, want %v", n.Name, ok, w != nil)
			continue
		}
		if !ok {
			continue
		}
		var ref struct {
			Light *int `json:"light"`
		}
		must(json.Unmarshal(e, &ref))
		if ref.Light == nil || *ref.Light < 0 || *ref.Light >= len(ext.Lights) || seen[*ref.Light] {
			c.Fatalf("node %q has the light %s", n.Name, e)
		}
		seen[*ref.Light] = true
		a, _ := json.Marshal(ext.Lights[*ref.Light])
		b, _ := json.Marshal(w.params)
		if string(a) != string(b) {
			c.Failf("light of %q is %s, want %s", n.Name, a, b)
		}
		c.Obs("light")
		m := w.m
		for k := 12; k < 15; k++ {
			m[k] *= 0.001
		}
		if x := worlds[i].diff(m); !(x <= 1e-5*(1+m.norm())) {
			c.Failf("light %q is at %v, want %v", n.Name, worlds[i], m)
		}
		if w.moved {
			c.Obs("light_moved")
		}
	}
	c.Sig("lights %v %d", *opt, len(order))
}
