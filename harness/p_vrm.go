package main

// VRM output: the configuration is applied as documented (P26) and the model
// keeps its shape (P27).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/vrm"
)

func init() {
	register(&Prop{
		ID:   "P26",
		Rule: "seeded rigs (glTF files of other programs and MQO files with bones, morphs and physics) and seeded configuration files (bone mappings with alternatives, ignored and impossible bones, morph mappings by target name and node, material settings, spring bone groups with wildcards, colliders, presets by name and by file, metadata) are converted by the real command line tool; the VRM extension and the materials of the result are compared with an independent evaluation of the configuration; the result is converted once more without configuration",
		Assumptions: []string{
			"node, material and morph target names are unique in the generated models",
			"morph mappings by node name use an existing target index",
		},
		Require: []string{"bone_mapped", "bone_ignored", "bone_alternative", "bone_mesh_refused", "bone_fallback", "bone_from_preset", "morph_target", "morph_node", "morph_missing", "material_alpha", "material_unlit", "material_star", "material_without_color", "spring_wildcard", "spring_any_letter", "spring_overlap", "collider_missing", "collider_remapped", "preset_builtin", "preset_file", "export_all", "config_default_name", "no_material_settings", "reconverted", "reconfigured", "reconfigured_colliders", "unnamed_material", "preset_missing", "mqo_input", "gltf_input", "spring_physics", "collider_physics", "standard_bone", "standard_morph", "vrm_parsed", "physics_options"},
		Cases: func(r *Run) {
			r.Repeat("gltf", r.N(500, 8000), func(c *C) { vrmConfigCase(c, false) })
			r.Repeat("mqo", r.N(400, 6000), func(c *C) { vrmConfigCase(c, true) })
			for _, n := range []string{"mmd", "mmd_ja", "mmd_en"} {
				n := n
				r.Case("preset/"+n, func(c *C) { vrmPresetCase(c, n) })
			}
		},
	})
	register(&Prop{
		ID:   "P27",
		Rule: "seeded skinned glTF models (joints translated and rotated, in bind pose, deep chains, children stored before parents, matrices, shared and offset accessors, byte joints, meshes attached to bones) and MQO rigs are converted to VRM by the real tool; source and result are evaluated to world positions by an independent reader and compared, the result is checked against the rules of glTF",
		Assumptions: []string{
			"joints are not scaled and the rest pose is the bind pose",
			"animations are out of scope",
		},
		Require: []string{"rotated_joint", "deep_chain", "child_first", "byte_joints", "interleaved", "mesh_on_bone", "matrix_joint", "world_point", "skinned_point", "shared_ibm", "shared_joints", "library", "gltf_input", "mqo_input", "normal_ok"},
		Cases: func(r *Run) {
			r.Repeat("gltf", r.N(600, 8000), vrmPoseCase)
			r.Repeat("mqo", r.N(300, 4000), vrmPoseMqoCase)
		},
	})
}

var presetNodeNames = []string{"センター", "上半身", "center", "upper body", "首", "頭", "右腕", "左腕", "右ひじ", "左ひじ", "head", "hips", "spine", "chest", "leftHand", "rightFoot", "左足", "右足", "neck", "leftUpperArm", "leftLowerArm", "rightUpperArm", "rightLowerArm", "rightHand", "leftUpperLeg", "leftLowerLeg", "leftFoot", "rightUpperLeg", "rightLowerLeg", "jaw", "leftEye"}

// vrmRig builds a skinned model in bind pose.
func vrmRig(c *C) *gGen {
	r := c.R
	g := newGGen(c)
	g.doc = jm{"asset": jm{"version": "2.0"}}
	nMats := r.Intn(4)
	var mats ja
	nTex := r.Intn(3)
	if nTex > 0 {
		var images, textures ja
		for i := 0; i < nTex; i++ {
			images = append(images, g.image(i))
			textures = append(textures, jm{"source": i})
		}
		g.doc["images"], g.doc["textures"] = images, textures
	}
	for i := 0; i < nMats; i++ {
		m := g.material(i, nTex)
		if r.Intn(3) == 0 {
			delete(m, "pbrMetallicRoughness")
		}
		if r.Intn(12) == 0 {
			delete(m, "name")
			c.Obs("unnamed_material")
		}
		mats = append(mats, m)
	}
	if nMats > 0 {
		g.doc["materials"] = mats
	}
	nb := 1 + r.Intn(10)
	deep := r.Intn(4) == 0
	if deep {
		nb = 12 + r.Intn(6)
	}
	nm := 1 + r.Intn(3)   // skinned mesh nodes
	ns := r.Intn(4)       // static mesh nodes
	arm := r.Intn(2) == 0 // armature node above the bones
	total := nb + nm + ns
	if arm {
		total++
	}
	ids := r.Perm(total)
	if r.Intn(3) == 0 {
		sort.Ints(ids)
	} else if deep && r.Intn(2) == 0 {
		sort.Sort(sort.Reverse(sort.IntSlice(ids)))
	}
	g.nodes = make([]jm, total)
	used := map[string]bool{}
	for i := range g.nodes {
		n := uniqueName(r, nameAlphabet, used)
		if r.Intn(2) == 0 {
			if p := presetNodeNames[r.Intn(len(presetNodeNames))]; !used[p] {
				n = p
				used[p] = true
			}
		}
		g.nodes[i] = jm{"name": n}
	}
	world := map[int]M4{}
	var roots ja
	place := func(id, parent int, scale bool) {
		n := g.nodes[id]
		t, q, s := V3{}, Q4{0, 0, 0, 1}, V3{1, 1, 1}
		if r.Intn(4) > 0 {
			t = rv3(r, 2)
		}
		if r.Intn(2) == 0 {
			q = rquat(r).unit()
			c.Obs("rotated_joint")
		}
		if scale && r.Intn(3) == 0 {
			s = V3{f32(0.5 + r.Float64()), f32(0.5 + r.Float64()), f32(0.5 + r.Float64())}
		}
		for i := range t {
			t[i], s[i] = f32(t[i]), f32(s[i])
		}
		for i := range q {
			q[i] = f32(q[i])
		}
		m := mTRS(t, q, s)
		if r.Intn(8) == 0 {
			var mm ja
			for _, v := range m {
				mm = append(mm, f32(v))
			}
			n["matrix"] = mm
			c.Obs("matrix_joint")
		} else {
			if t != (V3{}) {
				n["translation"] = t[:]
			}
			if q != (Q4{0, 0, 0, 1}) || r.Intn(3) == 0 {
				n["rotation"] = q[:]
			}
			if s != (V3{1, 1, 1}) || r.Intn(4) == 0 {
				n["scale"] = s[:]
			}
		}
		if parent >= 0 {
			l, _ := g.nodes[parent]["children"].(ja)
			g.nodes[parent]["children"] = append(l, id)
			m = world[parent].mul(m)
			if id < parent {
				c.Obs("child_first")
			}
		} else {
			roots = append(roots, id)
		}
		world[id] = m
	}
	top := -1
	if arm {
		top = ids[nb+nm+ns]
		place(top, -1, false)
	}
	for i := 0; i < nb; i++ {
		p := top
		if i > 0 {
			if deep {
				p = ids[i-1]
			} else if r.Intn(6) > 0 {
				p = ids[r.Intn(i)]
			}
		}
		place(ids[i], p, false)
	}
	if deep {
		c.Obs("deep_chain")
	}
	// skins
	nSkin := 1 + r.Intn(2)
	nj := 1 + r.Intn(nb)
	var skins ja
	var lastJ ja
	lastIBM := -1
	for i := 0; i < nSkin; i++ {
		var jl ja
		for _, k := range r.Perm(nb)[:nj] {
			jl = append(jl, ids[k])
		}
		if i > 0 && r.Intn(2) == 0 {
			jl = lastJ
			c.Obs("shared_ibm")
		} else {
			a := &gAttr{typ: "MAT4", ct: 5126}
			for _, j := range jl {
				m, _ := world[j.(int)].inverse()
				row := make([]float64, 16)
				for x := range row {
					row[x] = f32(m[x])
				}
				row[3], row[7], row[11], row[15] = 0, 0, 0, 1
				a.rows = append(a.rows, row)
			}
			lastIBM = g.acc(a)
		}
		lastJ = jl
		s := jm{"joints": jl, "inverseBindMatrices": lastIBM}
		if r.Intn(2) == 0 {
			s["skeleton"] = ids[0]
		}
		skins = append(skins, s)
	}
	g.doc["skins"] = skins
	var meshes ja
	usedM := map[string]bool{}
	addMesh := func(skinned bool) int {
		nt := 0
		if r.Intn(2) == 0 {
			nt = 1 + r.Intn(3)
		}
		meshes = append(meshes, g.mesh(uniqueName(r, nameAlphabet, usedM), nMats, nj, skinned, nt))
		return len(meshes) - 1
	}
	for i := 0; i < nm; i++ {
		id := ids[nb+i]
		k := -1
		if i > 0 && r.Intn(3) == 0 {
			// another mesh with the same vertex data
			k = len(meshes)
			o := meshes[k-1].(jm)
			m := jm{"name": uniqueName(r, nameAlphabet, usedM), "primitives": o["primitives"]}
			if w, ok := o["weights"]; ok {
				m["weights"] = w
				m["extras"] = jm{"targetNames": ja{}}
				for t := range w.([]float64) {
					x := m["extras"].(jm)
					x["targetNames"] = append(x["targetNames"].(ja), fmt.Sprintf("%s_t%d", m["name"], t))
				}
			}
			meshes = append(meshes, m)
			c.Obs("shared_joints")
		} else {
			k = addMesh(true)
		}
		if r.Intn(3) == 0 {
			place(id, ids[r.Intn(nb)], true)
		} else {
			place(id, -1, r.Intn(2) == 0)
		}
		g.nodes[id]["mesh"], g.nodes[id]["skin"] = k, r.Intn(nSkin)
	}
	for i := 0; i < ns; i++ {
		id := ids[nb+nm+i]
		p := -1
		if r.Intn(3) > 0 {
			p = ids[r.Intn(nb)]
			c.Obs("mesh_on_bone")
		} else if i > 0 && r.Intn(2) == 0 {
			p = ids[nb+nm+r.Intn(i)] // below another mesh
		}
		place(id, p, p < 0 || r.Intn(2) == 0)
		g.nodes[id]["mesh"] = addMesh(false)
	}
	if len(meshes) > 0 {
		g.doc["meshes"] = meshes
	}
	for _, m := range meshes { // a morph target without a name
		if x, ok := m.(jm)["extras"].(jm); ok && r.Intn(6) == 0 {
			if tn, ok := x["targetNames"].(ja); ok && len(tn) > 0 {
				tn[r.Intn(len(tn))] = ""
				c.Obs("unnamed_target")
			}
		}
	}
	g.doc["nodes"] = g.nodes
	g.doc["scenes"] = ja{jm{"nodes": roots}}
	g.doc["scene"] = 0
	g.doc["bufferViews"], g.doc["accessors"] = g.views, g.accs
	for _, a := range g.accs {
		if j := a.(jm); j["type"] == "VEC4" && j["componentType"] == 5121 && j["normalized"] == nil {
			c.Obs("byte_joints")
		}
	}
	return g
}

// ---------------------------------------------------------------- P27

func sameWorld(c *C, a, b *gDoc) {
	x, mag := evalWorld(c, a, nil)
	y, _ := evalWorld(c, b, nil)
	if len(x) != len(y) {
		c.Fatalf("%d points became %d", len(x), len(y))
	}
	for i := range x {
		if d := x[i].dist(y[i]); d > 2e-5*(mag+1e-3) || math.IsNaN(d) {
			what := "vertex"
			if k := i - (len(x) - len(a.Nodes)); k >= 0 {
				what = fmt.Sprintf("node %d %q", k, a.Nodes[k].Name)
			}
			c.Fatalf("%s (point %d) moved from %v to %v", what, i, x[i], y[i])
		}
	}
	c.ObsN("world_point", len(x))
}

// worldNormals evaluates the directions of all normals.
func worldNormals(c *C, d *gDoc) (out []V3) {
	w, _ := d.worlds()
	for ni, n := range d.Nodes {
		if n.Mesh == nil {
			continue
		}
		for _, pr := range d.Meshes[*n.Mesh].Primitives {
			a, ok := pr.Attributes["NORMAL"]
			if !ok {
				continue
			}
			nor := d.mustRead(c, a)
			if n.Skin == nil {
				inv, _ := w[ni].inverse()
				it := inv.transpose()
				for _, v := range nor {
					out = append(out, it.applyDir(V3{v[0], v[1], v[2]}).unit())
				}
				continue
			}
			s := d.Skins[*n.Skin]
			ibm := d.mustRead(c, *s.InverseBindMatrices)
			js, ws := d.mustRead(c, pr.Attributes["JOINTS_0"]), d.mustRead(c, pr.Attributes["WEIGHTS_0"])
			for k, v := range nor {
				var sum V3
				for x := range js[k] {
					var b M4
					copy(b[:], ibm[int(js[k][x])])
					sum = sum.add(w[s.Joints[int(js[k][x])]].mul(b).applyDir(V3{v[0], v[1], v[2]}).mul(ws[k][x]))
				}
				out = append(out, sum.unit())
			}
		}
	}
	return
}

func checkVrmPose(c *C, a, b *gDoc) {
	checkGltf(c, b)
	sameWorld(c, a, b)
	na, nb := worldNormals(c, a), worldNormals(c, b)
	if len(na) != len(nb) {
		c.Fatalf("%d normals became %d", len(na), len(nb))
	}
	for i := range na {
		if d := na[i].dist(nb[i]); d > 1e-4 || math.IsNaN(d) {
			c.Fatalf("normal %d changed from %v to %v", i, na[i], nb[i])
		}
	}
	c.ObsN("normal_ok", len(na))
	joint := map[int]bool{}
	for _, s := range b.Skins {
		for _, j := range s.Joints {
			joint[j] = true
		}
	}
	w, _ := b.worlds()
	for j := range joint {
		var rot M4 = w[j]
		rot[12], rot[13], rot[14] = 0, 0, 0
		if d := rot.diff(mScale(V3{1, 1, 1})); d > 1e-5 {
			c.Fatalf("joint %d %q is still rotated: %v", j, b.Nodes[j].Name, rot)
		}
	}
	for mi, m := range b.Meshes {
		for pi, p := range m.Primitives {
			if a, ok := p.Attributes["JOINTS_0"]; ok && b.Accessors[a].ComponentType != 5123 {
				c.Fatalf("mesh %d primitive %d: JOINTS_0 has component type %d, VRM readers expect unsigned short", mi, pi, b.Accessors[a].ComponentType)
			}
		}
	}
	if len(b.Buffers) > 1 {
		c.Failf("%d buffers in a single file", len(b.Buffers))
	}
}

func vrmPoseCase(c *C) {
	r := c.R
	g := vrmRig(c)
	in := g.write(c.Dir(), "in", r.Intn(2) == 0)
	a, err := loadGltfFile(in)
	must(err)
	c.Obs("gltf_input")
	before := treeHashes(c.Dir())
	out := filepath.Join(c.Dir(), "out.vrm")
	if r.Intn(4) == 0 {
		doc, err := gltfutil.Load(in)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if _, err := converter.ToVRM(doc, out, c.Dir(), ""); err != nil {
			c.Fatalf("ToVRM: %v", err)
		}
		c.Obs("library")
		checkVrmPose(c, a, rereadGltf(c, doc))
	} else {
		mustCLI(c, c.Dir(), in, out)
		b, err := loadGltfFile(out)
		if err != nil {
			c.Fatalf("%v", err)
		}
		checkVrmPose(c, a, b)
		for n, h := range before {
			if treeHashes(c.Dir())[n] != h {
				c.Failf("input file %s changed", n)
			}
		}
	}
	c.Sig("n%d s%d m%d", len(a.Nodes), len(a.Skins), len(a.Meshes))
}

func vrmPoseMqoCase(c *C) {
	r := c.R
	d, _, _ := genRig(c)
	bs := mqo.GetBonePlugin(d).Bones()
	for _, o := range d.Objects {
		if r.Intn(3) > 0 {
			for i := range o.Vertexes {
				bs[r.Intn(len(bs))].SetVertexWeight(o.UID, i+1, 1)
			}
		}
		if r.Intn(3) == 0 {
			o.Depth = r.Intn(3)
		}
	}
	c.Obs("mqo_input")
	in := filepath.Join(c.Dir(), "in.mqo")
	if err := mqo.Save(d, in); err != nil {
		c.Fatalf("%v", err)
	}
	mustCLI(c, c.Dir(), in, "ref.glb")
	mustCLI(c, c.Dir(), in, "out.vrm")
	a, err := loadGltfFile(filepath.Join(c.Dir(), "ref.glb"))
	must(err)
	b, err := loadGltfFile(filepath.Join(c.Dir(), "out.vrm"))
	if err != nil {
		c.Fatalf("%v", err)
	}
	checkVrmPose(c, a, b)
	c.Sig("mqo n%d s%d m%d", len(a.Nodes), len(a.Skins), len(a.Meshes))
}

// ---------------------------------------------------------------- P26

var vrmBones = []string{"hips", "spine", "chest", "neck", "head", "leftUpperArm", "leftHand", "rightHand", "leftFoot", "rightFoot", "jaw", "leftEye"}
var requiredBones = []string{"hips", "spine", "chest", "neck", "head", "leftUpperArm", "leftLowerArm", "leftHand", "rightUpperArm", "rightLowerArm", "rightHand", "leftUpperLeg", "leftLowerLeg", "leftFoot", "rightUpperLeg", "rightLowerLeg", "rightFoot"}

type vrmModel struct {
	nodes   []string
	mesh    []bool
	targets []int // morph targets of the mesh of the node
	morphs  []string
	mats    []string
}

func (m *vrmModel) name(c *C) string {
	if c.R.Intn(6) == 0 || len(m.nodes) == 0 {
		return "no such node"
	}
	return m.nodes[c.R.Intn(len(m.nodes))]
}

// genVrmConfig makes a configuration that refers to the model's names.
func genVrmConfig(c *C, m *vrmModel, preset bool) jm {
	r := c.R
	conf := jm{}
	if r.Intn(4) > 0 {
		meta := jm{}
		for _, k := range []string{"title", "version", "author", "contactInformation", "allowedUserName", "violentUssageName", "sexualUssageName", "commercialUssageName", "otherPermissionUrl", "licenseName", "otherLicenseUrl"} {
			if r.Intn(2) == 0 {
				meta[k] = k + rname(r, nameAlphabet, 3)
			}
		}
		conf["meta"] = meta
	}
	var bm ja
	for i := r.Intn(10); i > 0; i-- {
		b := jm{"bone": vrmBones[r.Intn(len(vrmBones))]}
		switch k := r.Intn(8); {
		case k == 0:
		case k < 3:
			b["nodeName"] = m.name(c)
		default:
			var l ja
			for j := 1 + r.Intn(3); j > 0; j-- {
				l = append(l, m.name(c))
			}
			b["nodeNames"] = l
			if r.Intn(4) == 0 {
				b["nodeName"] = m.name(c)
			}
		}
		if r.Intn(3) == 0 {
			b["min"], b["max"] = ja{-0.5, -1.0, -0.25}, ja{0.5, 1.0, 0.25}
			if r.Intn(2) == 0 {
				b["center"] = ja{0.125, 0.0, 0.5}
			}
			b["axisLength"] = 0.5
			if r.Intn(3) == 0 { // only some of them
				for _, k := range [][]string{{"min", "max"}, {"min"}, {"max", "center"}}[r.Intn(3)] {
					delete(b, k)
				}
			}
		}
		if r.Intn(4) == 0 {
			b["useDefaultValues"] = r.Intn(2) == 0
		}
		bm = append(bm, b)
	}
	if bm != nil {
		conf["boneMappings"] = bm
	}
	var mm ja
	for i := r.Intn(5); i > 0; i-- {
		e := jm{"name": []string{"Blink", "A", "Joy", "custom" + rname(r, nameAlphabet, 2)}[r.Intn(4)]}
		if len(m.morphs) > 0 && r.Intn(2) == 0 {
			e["targetName"] = m.morphs[r.Intn(len(m.morphs))]
			if r.Intn(5) == 0 {
				e["targetName"] = "no such target"
			}
			if r.Intn(4) == 0 && len(m.mats) > 0 {
				e["materialValues"] = ja{jm{"materialName": m.mats[r.Intn(len(m.mats))], "propertyName": "_Color", "targetValue": ja{1.0, 0.5, 0.25, 1.0}}}
			}
		} else {
			n := m.name(c)
			e["nodeName"] = n
			for k, x := range m.nodes {
				if x == n && m.targets[k] > 0 {
					e["targetIndex"] = r.Intn(m.targets[k])
				} else if x == n && m.mesh[k] {
					e["nodeName"] = "no such node" // a mesh without targets: no valid index
				}
			}
		}
		mm = append(mm, e)
	}
	if mm != nil {
		conf["morphMappings"] = mm
	}
	if r.Intn(2) == 0 {
		ms := jm{}
		names := append([]string{"*", "*"}, m.mats...)
		for i := r.Intn(4); i > 0; i-- {
			s := jm{}
			if r.Intn(2) == 0 {
				s["forceUnlit"] = r.Intn(3) > 0
			}
			if r.Intn(2) == 0 {
				s["alphaMode"] = []string{"blend", "mask", "opaque"}[r.Intn(3)]
			}
			if r.Intn(2) == 0 {
				s["alpha"] = 0.25 * float64(r.Intn(5))
			}
			ms[names[r.Intn(len(names))]] = s
		}
		conf["materialSettings"] = ms
	}
	var cg ja
	for i := r.Intn(4); i > 0; i-- {
		var cl ja
		for k := 1 + r.Intn(2); k > 0; k-- {
			cl = append(cl, jm{"radius": 0.5 * float64(1+r.Intn(5)), "offset": jm{"x": 0.5, "y": -0.25 * float64(r.Intn(4)), "z": 0.0}})
		}
		cg = append(cg, jm{"nodeName": m.name(c), "colliders": cl})
	}
	if cg != nil {
		conf["colliderGroups"] = cg
	}
	var bg ja
	for i := r.Intn(3); i > 0; i-- {
		var l ja
		for k := 1 + r.Intn(3); k > 0; k-- {
			n := m.name(c)
			switch r.Intn(4) {
			case 0:
				rs := []rune(n)
				n = string(rs[:r.Intn(len(rs)+1)]) + "*"
			case 1:
				n = "*"
				if rs := []rune(m.name(c)); r.Intn(2) == 0 && len(rs) > 0 {
					rs[r.Intn(len(rs))] = '?'
					n = string(rs)
				}
			}
			l = append(l, n)
		}
		e := jm{"comment": "c" + rname(r, nameAlphabet, 2), "stiffiness": 0.5 * float64(r.Intn(9)), "gravityPower": 0.25, "dragForce": 0.5, "hitRadius": 0.125, "center": -1.0, "nodeNames": l}
		if r.Intn(2) == 0 {
			e["gravityDir"] = jm{"x": 0.0, "y": -1.0, "z": 0.0}
		}
		if len(cg) > 0 && r.Intn(2) == 0 {
			var ix ja
			for _, k := range r.Perm(len(cg))[:1+r.Intn(len(cg))] {
				ix = append(ix, k)
			}
			e["colliderGroups"] = ix
		}
		bg = append(bg, e)
	}
	if bg != nil {
		conf["animationBoneGroups"] = bg
	}
	if r.Intn(3) == 0 {
		conf["exportAllMorph"] = true
	}
	return conf
}

func jlist(v interface{}) []jm {
	l, _ := v.(ja)
	var out []jm
	for _, x := range l {
		out = append(out, x.(jm))
	}
	return out
}

func jstr(v interface{}) string { s, _ := v.(string); return s }
func jnum(v interface{}) float64 {
	f, _ := v.(float64)
	return f
}

type vrmCollider struct {
	node      int
	colliders interface{}
}

// checkVrm compares the VRM extension of b with an evaluation of the
// configuration. mats are the materials before the configuration was applied.
func checkVrm(c *C, b *gDoc, mats []gMaterial, conf, preset jm, exportAll bool, extraSprings []string, extraColliders []jm) jm {
	raw, ok := b.Extensions["VRM"]
	if !ok {
		c.Fatalf("no VRM extension")
	}
	used := false
	for _, e := range b.ExtensionsUsed {
		used = used || e == "VRM"
	}
	if !used {
		c.Failf("VRM is not in extensionsUsed")
	}
	var ext jm
	must(json.Unmarshal(raw, &ext))
	byName := map[string]int{}
	for i, n := range b.Nodes {
		byName[n.Name] = i
	}
	both := func(key string) (out []jm) {
		out = append(out, jlist(conf[key])...)
		if preset != nil {
			out = append(out, jlist(preset[key])...)
		}
		return
	}

	// metadata
	cm, _ := conf["meta"].(jm)
	em, _ := ext["meta"].(jm)
	for _, k := range []string{"title", "version", "author", "contactInformation", "allowedUserName", "violentUssageName", "sexualUssageName", "commercialUssageName", "otherPermissionUrl", "licenseName", "otherLicenseUrl"} {
		if jstr(cm[k]) != jstr(em[k]) {
			c.Failf("meta %s: %q, configured is %q", k, jstr(em[k]), jstr(cm[k]))
		}
	}

	// humanoid bones
	want := map[string]jm{}
	done := map[string]bool{}
	nConf := len(jlist(conf["boneMappings"]))
	for mi, m := range both("boneMappings") {
		bone := jstr(m["bone"])
		if done[bone] {
			continue
		}
		var names []string
		nl, _ := m["nodeNames"].(ja)
		for _, n := range nl {
			names = append(names, n.(string))
		}
		if n := jstr(m["nodeName"]); n != "" {
			names = append(names, n)
		}
		if len(names) == 0 {
			done[bone] = true
			c.Obs("bone_ignored")
			continue
		}
		for k, n := range names {
			id, ok := byName[n]
			if !ok {
				continue
			}
			if b.Nodes[id].Mesh != nil {
				c.Obs("bone_mesh_refused")
				continue
			}
			done[bone] = true
			w := jm{"bone": bone, "node": float64(id), "useDefaultValues": m["useDefaultValues"] == true || m["min"] == nil && m["max"] == nil && m["center"] == nil}
			for _, f := range []string{"min", "max", "center", "axisLength"} {
				if m[f] != nil {
					w[f] = m[f]
				}
			}
			want[bone] = w
			c.Obs("bone_mapped")
			if k > 0 {
				c.Obs("bone_alternative")
			}
			if mi >= nConf {
				c.Obs("bone_from_preset")
			}
			break
		}
	}
	head := -1
	if w := want["head"]; w != nil {
		head = int(jnum(w["node"]))
	}
	for _, n := range requiredBones {
		if id, ok := byName[n]; ok && !done[n] {
			if b.Nodes[id].Mesh != nil {
				want[n] = nil // undefined: a mesh node with the name of a bone
				continue
			}
			want[n] = jm{"bone": n, "node": float64(id), "useDefaultValues": true}
			c.Obs("bone_fallback")
		}
	}
	hum, _ := ext["humanoid"].(jm)
	got := map[string]bool{}
	for _, g := range jlist(hum["humanBones"]) {
		n := jstr(g["bone"])
		if got[n] {
			c.Failf("humanoid bone %q is listed twice", n)
		}
		got[n] = true
		w, ok := want[n]
		if !ok {
			c.Failf("humanoid bone %q of node %v is not configured", n, g["node"])
		} else if w != nil {
			if df := jsonDiff("humanoid bone "+n, w, g); len(df) > 0 {
				c.Failf("%v", df)
			}
		}
	}
	for n, w := range want {
		if !got[n] && w != nil {
			c.Failf("humanoid bone %q (node %v) is missing", n, w["node"])
		}
	}
	fp, _ := ext["firstPerson"].(jm)
	if head >= 0 && (fp == nil || jnum(fp["firstPersonBone"]) != float64(head)) {
		c.Failf("first person bone %v, head is node %d", fp["firstPersonBone"], head)
	}

	// morphs
	targets := map[string][2]int{}
	for mi, m := range b.Meshes {
		for i, n := range m.Extras.TargetNames {
			targets[n] = [2]int{mi, i}
		}
	}
	bound := map[[2]int]bool{}
	var groups []jm
	bind := func(t [2]int) ja {
		return ja{jm{"mesh": float64(t[0]), "index": float64(t[1]), "weight": 100.0}}
	}
	for _, m := range both("morphMappings") {
		e := jm{"name": m["name"], "presetName": m["name"]}
		if tn := jstr(m["targetName"]); tn != "" {
			t, ok := targets[tn]
			if m["materialValues"] != nil {
				e["materialValues"] = m["materialValues"]
			}
			if ok {
				e["binds"] = bind(t)
				bound[t] = true
				c.Obs("morph_target")
			} else {
				c.Obs("morph_missing")
				if e["materialValues"] == nil {
					continue
				}
			}
		} else {
			id, ok := byName[jstr(m["nodeName"])]
			if !ok || b.Nodes[id].Mesh == nil {
				c.Obs("morph_missing")
				continue
			}
			t := [2]int{*b.Nodes[id].Mesh, int(jnum(m["targetIndex"]))}
			e["binds"] = bind(t)
			bound[t] = true
			c.Obs("morph_node")
		}
		groups = append(groups, e)
	}
	if exportAll || conf["exportAllMorph"] == true {
		for mi, m := range b.Meshes {
			for i, n := range m.Extras.TargetNames {
				if t := [2]int{mi, i}; !bound[t] {
					groups = append(groups, jm{"name": n, "presetName": "", "binds": bind(t)})
					c.Obs("export_all")
				}
			}
		}
	}
	bsm, _ := ext["blendShapeMaster"].(jm)
	gg := jlist(bsm["blendShapeGroups"])
	if len(gg) != len(groups) {
		c.Failf("%d blend shape groups, configured are %d: %v / %v", len(gg), len(groups), gg, groups)
	} else {
		for i := range groups {
			g := jm{}
			for k, v := range gg[i] {
				if k != "binds" || v != nil {
					g[k] = v
				}
			}
			if df := jsonDiff(fmt.Sprintf("blend shape group %d", i), groups[i], g); len(df) > 0 {
				c.Failf("%v", df)
			}
		}
	}

	// spring bones and colliders
	sec, _ := ext["secondaryAnimation"].(jm)
	var wantC []vrmCollider
	index := func(list []jm) []int {
		var ix []int
		for _, g := range list {
			id, ok := byName[jstr(g["nodeName"])]
			if !ok {
				ix = append(ix, -1)
				c.Obs("collider_missing")
				continue
			}
			ix = append(ix, len(wantC))
			wantC = append(wantC, vrmCollider{id, g["colliders"]})
		}
		return ix
	}
	confIx := index(jlist(conf["colliderGroups"]))
	for _, g := range extraColliders {
		index([]jm{g})
		c.Obs("collider_physics")
	}
	var presetIx []int
	if preset != nil {
		presetIx = index(jlist(preset["colliderGroups"]))
	}
	gc := jlist(sec["colliderGroups"])
	if len(gc) != len(wantC) {
		c.Fatalf("%d collider groups, configured are %d", len(gc), len(wantC))
	}
	for i, w := range wantC {
		if df := jsonDiffTol(fmt.Sprintf("collider group %d", i), jm{"node": float64(w.node), "colliders": w.colliders}, gc[i], 1e-6); len(df) > 0 {
			c.Failf("%v", df)
		}
	}
	covered := map[int]bool{}
	var desc func(n int, f func(int))
	desc = func(n int, f func(int)) {
		f(n)
		for _, k := range b.Nodes[n].Children {
			desc(k, f)
		}
	}
	var wantG []jm
	groupOf := func(g jm, ix []int) {
		var bones ja
		nl, _ := g["nodeNames"].(ja)
		for _, x := range nl {
			pat := x.(string)
			for id, n := range b.Nodes {
				if byName[n.Name] != id {
					continue
				}
				if ok, _ := path.Match(pat, n.Name); !ok && pat != n.Name {
					continue
				}
				if n.Mesh != nil {
					continue
				}
				overlap := false
				desc(id, func(k int) { overlap = overlap || covered[k] })
				if overlap {
					c.Obs("spring_overlap")
					continue
				}
				desc(id, func(k int) { covered[k] = true })
				bones = append(bones, float64(id))
				if strings.Contains(pat, "*") {
					c.Obs("spring_wildcard")
				} else if strings.Contains(pat, "?") && pat != n.Name {
					c.Obs("spring_any_letter")
				}
			}
		}
		if bones == nil {
			return
		}
		e := jm{"bones": bones}
		for k, v := range g {
			if k != "nodeNames" && k != "colliderGroups" {
				e[k] = v
			}
		}
		if l, ok := g["colliderGroups"].(ja); ok {
			var o ja
			for _, k := range l {
				if ix[int(jnum(k))] >= 0 {
					o = append(o, float64(ix[int(jnum(k))]))
					if ix[int(jnum(k))] != int(jnum(k)) {
						c.Obs("collider_remapped")
					}
				}
			}
			if o != nil {
				e["colliderGroups"] = o
			}
		}
		wantG = append(wantG, e)
	}
	for _, g := range jlist(conf["animationBoneGroups"]) {
		groupOf(g, confIx)
	}
	if len(extraSprings) > 0 {
		var l ja
		for _, n := range extraSprings {
			l = append(l, n)
		}
		groupOf(jm{"nodeNames": l, "auto": true}, nil)
		c.Obs("spring_physics")
	}
	if preset != nil {
		for _, g := range jlist(preset["animationBoneGroups"]) {
			groupOf(g, presetIx)
		}
	}
	ggr := jlist(sec["boneGroups"])
	if len(ggr) != len(wantG) {
		c.Fatalf("%d spring bone groups, configured are %d: %v / %v", len(ggr), len(wantG), ggr, wantG)
	}
	for i, w := range wantG {
		if w["auto"] == true {
			if v, ok := ggr[i]["center"]; ok && jnum(v) >= 0 {
				c.Failf("spring bones of bodies are simulated relative to node %v", v)
			}
			w, ggr[i] = jm{"bones": w["bones"]}, jm{"bones": ggr[i]["bones"]}
		}
		if df := jsonDiff(fmt.Sprintf("spring bone group %d", i), w, ggr[i]); len(df) > 0 {
			c.Failf("%v", df)
		}
	}

	// materials
	mp := jlist(ext["materialProperties"])
	if len(mp) != len(b.Materials) {
		c.Failf("%d material properties for %d materials", len(mp), len(b.Materials))
	} else {
		for i, m := range b.Materials {
			if jstr(mp[i]["name"]) != m.Name || jstr(mp[i]["shader"]) != "VRM_USE_GLTFSHADER" {
				c.Failf("material property %d is %v %v for material %q", i, mp[i]["name"], mp[i]["shader"], m.Name)
			}
		}
	}
	settings := jm{}
	for _, cf := range []jm{preset, conf} {
		if cf == nil {
			continue
		}
		ms, ok := cf["materialSettings"].(jm)
		if !ok {
			c.Obs("no_material_settings")
		}
		for k, v := range ms {
			settings[k] = v
		}
	}
	if len(mats) != len(b.Materials) {
		c.Fatalf("%d materials became %d", len(mats), len(b.Materials))
	}
	for i, m := range b.Materials {
		o := mats[i]
		s, _ := settings[m.Name].(jm)
		if s == nil {
			if s, _ = settings["*"].(jm); s != nil {
				c.Obs("material_star")
			}
		}
		mode := o.AlphaMode
		if mode == "" {
			mode = "OPAQUE"
		}
		if a := jstr(s["alphaMode"]); a != "" {
			mode = strings.ToUpper(a)
			c.Obs("material_alpha")
		}
		gm := m.AlphaMode
		if gm == "" {
			gm = "OPAQUE"
		}
		if gm != mode {
			c.Failf("material %q: alpha mode %s, want %s", m.Name, gm, mode)
		}
		col := func(p *gPBR) []float64 {
			if p == nil || p.BaseColorFactor == nil {
				return []float64{1, 1, 1, 1}
			}
			return append([]float64(nil), p.BaseColorFactor...)
		}
		wc := col(o.PBR)
		if a := jnum(s["alpha"]); a > 0 {
			if o.PBR != nil {
				wc[3] = a
				if o.PBR.BaseColorFactor == nil {
					c.Obs("material_without_color")
				}
			} else {
				wc = nil // no PBR parameters to change
			}
		}
		if wc != nil {
			gcv := col(m.PBR)
			for k := range wc {
				if !near(gcv[k], wc[k], 1e-6) {
					c.Failf("material %q: colour %v, want %v", m.Name, gcv, wc)
					break
				}
			}
		}
		_, ou := o.Extensions["KHR_materials_unlit"]
		_, gu := m.Extensions["KHR_materials_unlit"]
		wu := ou || s["forceUnlit"] == true
		if wu {
			c.Obs("material_unlit")
		}
		if gu != wu {
			c.Failf("material %q: unlit is %v, want %v", m.Name, gu, wu)
		}
	}
	return ext
}

// the bones and morphs every MMD model has and what they are in VRM
var mmdStandard = [][3]string{{"センター", "center", "hips"}, {"上半身", "upper body", "spine"}, {"首", "neck", "neck"}, {"頭", "head", "head"},
	{"左腕", "arm_L", "leftUpperArm"}, {"左ひじ", "elbow_L", "leftLowerArm"}, {"左手首", "wrist_L", "leftHand"}, {"右腕", "arm_R", "rightUpperArm"}, {"右ひじ", "elbow_R", "rightLowerArm"}, {"右手首", "wrist_R", "rightHand"},
	{"左足", "leg_L", "leftUpperLeg"}, {"左ひざ", "knee_L", "leftLowerLeg"}, {"左足首", "ankle_L", "leftFoot"}, {"右足", "leg_R", "rightUpperLeg"}, {"右ひざ", "knee_R", "rightLowerLeg"}, {"右足首", "ankle_R", "rightFoot"},
	{"左肩", "shoulder_L", "leftShoulder"}, {"右肩", "shoulder_R", "rightShoulder"}, {"左目", "eye_L", "leftEye"}, {"右目", "eye_R", "rightEye"}, {"左人指１", "fore1_L", "leftIndexProximal"}, {"右小指３", "little3_R", "rightLittleDistal"}}
var mmdMorphs = [][2]string{{"まばたき", "Blink"}, {"あ", "A"}, {"い", "I"}, {"う", "U"}, {"え", "E"}, {"お", "O"}}

func vrmPresetCase(c *C, preset string) {
	g := newGGen(c)
	g.doc = jm{"asset": jm{"version": "2.0"}}
	k := 0
	if preset == "mmd_en" {
		k = 1
	}
	var roots ja
	for _, i := range c.R.Perm(len(mmdStandard)) {
		roots = append(roots, len(g.nodes))
		g.nodes = append(g.nodes, jm{"name": mmdStandard[i][k]})
	}
	m := g.mesh("face", 0, 1, false, len(mmdMorphs))
	var tn ja
	for _, x := range mmdMorphs {
		tn = append(tn, x[0])
	}
	m["extras"] = jm{"targetNames": tn}
	g.doc["meshes"] = ja{m}
	roots = append(roots, len(g.nodes))
	g.nodes = append(g.nodes, jm{"name": "face mesh", "mesh": 0})
	g.doc["nodes"], g.doc["scenes"], g.doc["scene"] = g.nodes, ja{jm{"nodes": roots}}, 0
	g.doc["bufferViews"], g.doc["accessors"] = g.views, g.accs
	in := g.write(c.Dir(), "in", true)
	must(os.WriteFile(filepath.Join(c.Dir(), "conf.json"), []byte(`{"preset":"`+preset+`"}`), 0644))
	mustCLI(c, c.Dir(), "-vrmconfig", "conf.json", in, "out.vrm")
	b, err := loadGltfFile(filepath.Join(c.Dir(), "out.vrm"))
	if err != nil {
		c.Fatalf("%v", err)
	}
	var ext jm
	must(json.Unmarshal(b.Extensions["VRM"], &ext))
	hum, _ := ext["humanoid"].(jm)
	got := map[string]string{}
	for _, x := range jlist(hum["humanBones"]) {
		got[b.Nodes[int(jnum(x["node"]))].Name] = jstr(x["bone"])
	}
	for _, s := range mmdStandard {
		if got[s[k]] != s[2] {
			c.Failf("preset %s: MMD bone %q is humanoid bone %q, want %q", preset, s[k], got[s[k]], s[2])
		}
		c.Obs("standard_bone")
	}
	bsm, _ := ext["blendShapeMaster"].(jm)
	morph := map[int]string{}
	for _, x := range jlist(bsm["blendShapeGroups"]) {
		for _, y := range jlist(x["binds"]) {
			morph[int(jnum(y["index"]))] = jstr(x["name"])
		}
	}
	for i, s := range mmdMorphs {
		if morph[i] != s[1] {
			c.Failf("preset %s: MMD morph %q is blend shape %q, want %q", preset, s[0], morph[i], s[1])
		}
		c.Obs("standard_morph")
	}
	c.Sig("%s", preset)
}

func vrmConfigCase(c *C, fromMqo bool) {
	r := c.R
	dir := c.Dir()
	var in string
	var args []string
	base := []string{"in", "model.v1", "in.glb"}[r.Intn(3)]
	physics := false
	var springs []string
	var colliders []jm
	if fromMqo {
		d, bones, _ := genRig(c)
		for _, b := range mqo.GetBonePlugin(d).Bones() {
			if n := presetNodeNames[r.Intn(len(presetNodeNames))]; r.Intn(2) == 0 {
				dup := false
				for _, o := range mqo.GetBonePlugin(d).Bones() {
					dup = dup || o.Name == n
				}
				if !dup {
					b.Name = n
				}
			}
		}
		_ = bones
		physics = r.Intn(2) == 0
		if physics {
			springs, colliders = genVrmPhysics(c, d)
			args = append(args, "-physics")
		}
		in = filepath.Join(dir, base+".mqo")
		if err := mqo.Save(d, in); err != nil {
			c.Fatalf("%v", err)
		}
		c.Obs("mqo_input")
	} else {
		in = vrmRig(c).write(dir, base, r.Intn(2) == 0)
		c.Obs("gltf_input")
	}
	// what the model looks like without configuration
	mustCLI(c, dir, append(append([]string(nil), args...), in, filepath.Join(dir, "ref.glb"))...)
	ref, err := loadGltfFile(filepath.Join(dir, "ref.glb"))
	must(err)
	m := &vrmModel{}
	for _, n := range ref.Nodes {
		m.nodes = append(m.nodes, n.Name)
		m.mesh = append(m.mesh, n.Mesh != nil)
		t := 0
		if n.Mesh != nil {
			t = len(ref.Meshes[*n.Mesh].Extras.TargetNames)
		}
		m.targets = append(m.targets, t)
	}
	for _, x := range ref.Meshes {
		m.morphs = append(m.morphs, x.Extras.TargetNames...)
	}
	for _, x := range ref.Materials {
		m.mats = append(m.mats, x.Name)
	}
	if len(springs)+len(colliders) > 0 {
		springs, colliders = resolveVrmPhysics(c, ref, springs, colliders)
	}

	conf := genVrmConfig(c, m, false)
	var preset jm
	switch r.Intn(4) {
	case 0:
		name := []string{"mmd", "mmd_ja", "mmd_en"}[r.Intn(3)]
		conf["preset"] = name
		js, err := os.ReadFile(filepath.Join("/repo/converter/vrmconfig_presets", name+".json"))
		must(err)
		must(json.Unmarshal(js, &preset))
		c.Obs("preset_builtin")
	case 1:
		preset = genVrmConfig(c, m, true)
		delete(preset, "exportAllMorph")
		p := filepath.Join(dir, "my preset.json")
		js, _ := json.Marshal(preset)
		must(os.WriteFile(p, js, 0644))
		conf["preset"] = p
		c.Obs("preset_file")
	}
	js, _ := json.Marshal(conf)
	must(json.Unmarshal(js, &conf)) // numbers as float64
	if preset != nil {
		pj, _ := json.Marshal(preset)
		preset = nil
		must(json.Unmarshal(pj, &preset))
	}
	cf := filepath.Join(dir, "conf.json")
	if r.Intn(3) == 0 {
		cf = strings.TrimSuffix(in, filepath.Ext(in)) + ".vrmconfig.json"
		c.Obs("config_default_name")
	} else {
		args = append(args, "-vrmconfig", cf)
		if r.Intn(3) == 0 { // must not be used
			must(os.WriteFile(strings.TrimSuffix(in, filepath.Ext(in))+".vrmconfig.json", []byte(`{"meta":{"title":"wrong"}}`), 0644))
		}
	}
	must(os.WriteFile(cf, js, 0644))
	all := r.Intn(4) == 0
	if all {
		args = append(args, "-vrmExportAllMorph")
	}
	out := filepath.Join(dir, "out.vrm")
	mustCLI(c, dir, append(args, in, out)...)
	b, err := loadGltfFile(out)
	if err != nil {
		c.Fatalf("%v", err)
	}
	ext := checkVrm(c, b, ref.Materials, conf, preset, all, springs, colliders)
	checkGltf(c, b)
	if _, ok := b.Extensions[converter.BlenderPhysicsName]; ok {
		c.Failf("physics extension left in the VRM file")
	}

	checkVrmParse(c, out, ext)
	if fromMqo && physics && r.Intn(2) == 0 {
		vrmPhysicsOff(c, in)
	}

	// once more, without a configuration
	if r.Intn(3) == 0 {
		again := "again." + []string{"vrm", "glb", "gltf"}[r.Intn(3)]
		mustCLI(c, dir, "out.vrm", again)
		g, err := loadGltfFile(filepath.Join(dir, again))
		if err != nil {
			c.Fatalf("%v", err)
		}
		var e2 jm
		must(json.Unmarshal(g.Extensions["VRM"], &e2))
		if df := jsonDiff("VRM extension after "+again, ext, e2); len(df) > 0 {
			c.Failf("%v", df)
		}
		sameWorld(c, b, g)
		c.Obs("reconverted")
	}

	// a preset that does not exist is an error
	if r.Intn(8) == 0 {
		js, _ := json.Marshal(jm{"meta": conf["meta"], "preset": []string{"nosuch", filepath.Join(dir, "nosuch.json"), dir, "mmd_"}[r.Intn(4)]})
		must(os.WriteFile(filepath.Join(dir, "bad.json"), js, 0644))
		if res := runCLI(c, dir, "-vrmconfig", filepath.Join(dir, "bad.json"), in, "bad.vrm"); res.code == 0 || res.stderr == "" {
			c.Failf("a configuration with a preset that does not exist (%s): exit code %d, message %q", js, res.code, res.stderr)
		}
		c.Obs("preset_missing")
	}

	// once more, with another configuration: its metadata and bones replace
	// those of the file
	if r.Intn(3) == 0 {
		conf2 := genVrmConfig(c, m, false)
		js, _ := json.Marshal(conf2)
		must(os.WriteFile(filepath.Join(dir, "conf2.json"), js, 0644))
		mustCLI(c, dir, "-vrmconfig", filepath.Join(dir, "conf2.json"), "out.vrm", "second.vrm")
		mustCLI(c, dir, "-vrmconfig", filepath.Join(dir, "conf2.json"), in, "fresh.vrm")
		var es [2]jm
		for i, n := range []string{"fresh.vrm", "second.vrm"} {
			g, err := loadGltfFile(filepath.Join(dir, n))
			if err != nil {
				c.Fatalf("%v", err)
			}
			must(json.Unmarshal(g.Extensions["VRM"], &es[i]))
		}
		for _, k := range []string{"meta", "humanoid"} {
			if df := jsonDiff(k+" of a VRM file after applying another configuration", es[0][k], es[1][k]); len(df) > 0 {
				c.Failf("%v", df)
			}
		}
		var gs [2][]jm
		auto := false
		for i, e := range es {
			sec, _ := e["secondaryAnimation"].(jm)
			cg := jlist(sec["colliderGroups"])
			for _, b := range jlist(sec["boneGroups"]) {
				auto = auto || b["comment"] == "auto generated"
				if l, ok := b["colliderGroups"].(ja); ok {
					var o ja
					for _, k := range l {
						if k := int(jnum(k)); k < 0 || k >= len(cg) {
							c.Fatalf("a spring bone group uses collider group %d of %d", k, len(cg))
						} else {
							o = append(o, cg[k])
						}
					}
					b["colliderGroups"] = o
					if i == 1 && len(l) > 0 {
						c.Obs("reconfigured_colliders")
					}
				}
				gs[i] = append(gs[i], b)
			}
		}
		if n := len(gs[0]); !auto && len(gs[1]) < n {
			c.Failf("%d spring bone groups after applying a configuration with %d to a VRM file", len(gs[1]), n)
		} else if !auto {
			for i, b := range gs[1][len(gs[1])-n:] {
				if df := jsonDiff(fmt.Sprintf("spring bone group %d of a VRM file after applying another configuration", i), gs[0][i], b); len(df) > 0 {
					c.Failf("%v", df)
				}
			}
		}
		c.Obs("reconfigured")
	}
	c.Sig("c%d p%v n%d", len(conf), preset != nil, len(b.Nodes))
}

// checkVrmParse reads the file with the vrm package: the missing bones are
// reported exactly, and a damaged file is an error.
func checkVrmParse(c *C, out string, ext jm) {
	data, err := os.ReadFile(out)
	must(err)
	d, err := vrm.Parse(bytes.NewReader(data), out)
	if err != nil {
		c.Fatalf("vrm.Parse: %v", err)
	}
	has := map[string]bool{}
	for _, x := range jlist(ext["humanoid"].(map[string]interface{})["humanBones"]) {
		has[x["bone"].(string)] = true
	}
	var want []string
	for _, n := range requiredBones {
		if !has[n] {
			want = append(want, n)
		}
	}
	got := append([]string(nil), d.VRM().CheckRequiredBones()...)
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Failf("missing bones %v, want %v", got, want)
	}
	if err := d.ValidateBones(); (err != nil) != (len(want) > 0) {
		c.Failf("missing bones %v, but ValidateBones returns %v", want, err)
	}
	if meta, ok := ext["meta"].(map[string]interface{}); ok {
		if t, _ := meta["title"].(string); d.VRM().Title() != t {
			c.Failf("title %q, want %q", d.VRM().Title(), t)
		}
		if t, _ := meta["author"].(string); d.VRM().Author() != t {
			c.Failf("author %q, want %q", d.VRM().Author(), t)
		}
	}
	if _, err := vrm.Parse(bytes.NewReader(data[:c.R.Intn(len(data))]), out); err == nil {
		c.Failf("vrm.Parse accepts a truncated file")
	}
	c.Obs("vrm_parsed")
}

// vrmPhysicsOff: physics data becomes springs and colliders only when the
// configuration says so, and never stays in the file.
func vrmPhysicsOff(c *C, in string) {
	for k := 0; k < 4; k++ {
		d, err := mqo.Load(in)
		if err != nil {
			c.Fatalf("%v", err)
		}
		g, err := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{ConvertPhysics: true}).Convert(d, filepath.Dir(in))
		if err != nil {
			c.Fatalf("%v", err)
		}
		v, err := converter.ApplyVRMConfig(g, "out.vrm", filepath.Dir(in), &converter.Config{AnimationBoneFromPhysics: k&1 != 0, ConvertPhysicsCollider: k&2 != 0})
		if err != nil {
			c.Fatalf("%v", err)
		}
		nb, nc := 0, 0
		if s := v.VRM().SecondaryAnimation; s != nil {
			nb, nc = len(s.BoneGroups), len(s.ColliderGroups)
		}
		if nb > 0 && k&1 == 0 || nc > 0 && k&2 == 0 {
			c.Failf("%d bone groups and %d collider groups, physics options %d", nb, nc, k)
		}
		for _, n := range v.Nodes {
			if _, ok := n.Extensions[converter.BlenderPhysicsName]; ok {
				c.Failf("physics left on node %q", n.Name)
			}
		}
	}
	c.Obs("physics_options")
}

// genVrmPhysics attaches bodies to bones: names of dynamic bones and the
// colliders of static ones.
func genVrmPhysics(c *C, d *mqo.Document) (dynamic []string, static []jm) {
	r := c.R
	p := mqo.GetPhysicsPlugin(d)
	bs := mqo.GetBonePlugin(d).Bones()
	for _, b := range bs {
		if r.Intn(3) == 0 {
			continue
		}
		body := &mqo.PhysicsBody{Name: "body" + b.Name, TargetBoneID: b.ID, Mass: 1, Kinematic: b.Parent == 0 || r.Intn(3) == 0, CollisionGroup: 1, CollisionMask: -1}
		var cl ja
		for k := 1 + r.Intn(2); k > 0; k-- {
			t := []string{"SPHERE", "CAPSULE", "BOX"}[r.Intn(3)]
			s := &mqo.PhysicsShape{Type: t, Size: mqo.Vector3XmlAttr{X: float32(1+r.Intn(8)) * 125, Y: 50, Z: 25}, Position: mqo.Vector3XmlAttr{X: b.Pos.X + float32(r.Intn(9)*25), Y: b.Pos.Y - 50, Z: b.Pos.Z + float32(r.Intn(3))}}
			body.Shapes = append(body.Shapes, s)
			if t != "BOX" {
				cl = append(cl, jm{"radius": float64(s.Size.X) / 1000, "offset": jm{"x": float64(s.Position.X-b.Pos.X) / 1000, "y": float64(s.Position.Y-b.Pos.Y) / 1000, "z": float64(s.Position.Z-b.Pos.Z) / 1000}})
			}
		}
		p.Bodies = append(p.Bodies, body)
		if body.Kinematic {
			if cl != nil {
				static = append(static, jm{"nodeName": b.Name, "colliders": cl})
			}
		} else {
			dynamic = append(dynamic, b.Name)
		}
	}
	return
}

// resolveVrmPhysics finds the spring chains (topmost bones below which
// everything but bare ends is dynamic) and orders the colliders by node.
func resolveVrmPhysics(c *C, d *gDoc, dynamic []string, static []jm) (springs []string, colliders []jm) {
	dyn := map[string]bool{}
	for _, n := range dynamic {
		dyn[n] = true
	}
	_, parents := d.worlds()
	hasBody := func(i int) bool {
		_, ok := d.Nodes[i].Extensions[converter.BlenderPhysicsName]
		return ok
	}
	var chain func(i int) bool
	chain = func(i int) bool {
		if !hasBody(i) {
			return len(d.Nodes[i].Children) == 0
		}
		if !dyn[d.Nodes[i].Name] {
			return false
		}
		for _, k := range d.Nodes[i].Children {
			if !chain(k) {
				return false
			}
		}
		return true
	}
	for i, n := range d.Nodes {
		if dyn[n.Name] != (hasBody(i) && dyn[n.Name]) {
			c.Failf("bone %q has lost its body", n.Name)
		}
		if dyn[n.Name] && chain(i) && parents[i] >= 0 && !chain(parents[i]) {
			springs = append(springs, n.Name)
		}
		for _, s := range static {
			if jstr(s["nodeName"]) == n.Name {
				colliders = append(colliders, s)
			}
		}
	}
	return
}
