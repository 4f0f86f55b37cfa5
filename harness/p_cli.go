package main

// The command line tool: options (P28) and the contract of a run (P29).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"image/png"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
)

func init() {
	register(&Prop{
		ID:   "P28",
		Rule: "seeded MQO rigs (bones, morphs, material morphs, object trees, classic and glTF materials) are converted by the real tool with random combinations of -scale/-scaleX/Y/Z, -rot180, -chparent, -autotpose, -hide, -hidemat, -morph, -alpha and -unlit, with names and wildcards; the MQO result is compared with an independent application of the options to the document, the glTF result with the one converted without options, and the effect of the converter options with the converter called directly",
		Assumptions: []string{
			"names contain none of the characters with a meaning in option lists (, : * ? [ \\ /)",
			"-chparent makes no cycles",
		},
		Require: []string{"scale", "axis_scale", "rot180", "hide", "hide_child", "hidemat", "morph", "alpha_mode", "alpha_value", "alpha_zero", "unlit", "unlit_alpha", "constant_alpha", "chparent", "tpose", "wildcard", "no_match", "bad_option", "glb_hidden", "glb_material", "glb_scaled", "mmd_scale", "mmd_config", "mmd_reparented", "mmd_vrm", "mmd_vrm_turned", "mmd_own_config", "converter_options", "effect_texReCompress", "effect_reuseGeometry", "effect_ignoreHierarchy", "effect_physics", "effect_detectAlphaTexture", "effect_gltfExportLight", "effect_texBytesThreshold", "effect_texResolutionLimit", "effect_texResizeScale"},
		Cases: func(r *Run) {
			r.Repeat("mqo", r.N(700, 10000), cliOptionCase)
			r.Repeat("glb", r.N(400, 6000), cliVisualCase)
			r.Repeat("mmd", r.N(150, 2000), cliMmdScaleCase)
			r.Repeat("mmdbones", r.N(120, 2000), cliMmdBonesCase)
			r.Repeat("converter", r.N(300, 4000), cliConverterCase)
			for i, a := range badOptions {
				a := a
				r.Case(fmt.Sprintf("bad/%d", i), func(c *C) { cliBadOptionCase(c, a) })
			}
		},
	})
}

var cliNames = []string{"body", "face_01", "face_02", "顔", "目の光", "head", "頭髪", "skirt.001", "acc", "acc2", "左腕", "右腕", "a", "b b"}

// glob is an independent matcher for * and ?.
func glob(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if glob(p[1:], s[i:]) {
				return true
			}
		}
		return false
	case '?':
		return len(s) > 0 && glob(p[1:], s[1:])
	}
	return len(s) > 0 && s[0] == p[0] && glob(p[1:], s[1:])
}

func globAny(ps []string, s string) bool {
	for _, p := range ps {
		if glob([]rune(p), []rune(s)) {
			return true
		}
	}
	return false
}

func cliPattern(c *C, names []string) string {
	r := c.R
	if len(names) == 0 || r.Intn(8) == 0 {
		c.Obs("no_match")
		return "no such name"
	}
	n := []rune(names[r.Intn(len(names))])
	switch r.Intn(7) {
	case 0:
		c.Obs("wildcard")
		return string(n[:1+r.Intn(len(n))]) + "*"
	case 1:
		c.Obs("wildcard")
		return "*" + string(n[r.Intn(len(n)):])
	case 2:
		c.Obs("wildcard")
		n[r.Intn(len(n))] = '?'
		return string(n)
	case 3:
		if r.Intn(3) == 0 {
			c.Obs("wildcard")
			return "*"
		}
	}
	return string(n)
}

func cliPatterns(c *C, names []string) []string {
	var out []string
	for k := 1 + c.R.Intn(2); k > 0; k-- {
		out = append(out, cliPattern(c, names))
	}
	return out
}

// genCliDoc is a rig with several named materials and an object tree.
func genCliDoc(c *C) (d *mqo.Document, bones, morphs []string) {
	r := c.R
	d, _, morphs = genRig(c)
	perm := r.Perm(len(cliNames))
	d.Materials = nil
	for i := 0; i < 1+r.Intn(5); i++ {
		m := &mqo.Material{Name: cliNames[perm[i]], Color: geom.Vector4{X: q8(r), Y: q8(r), Z: q8(r), W: []float32{1, 1, 0.5, 0.25}[r.Intn(4)]}, Diffuse: 0.75, Shader: r.Intn(5), Specular: 0.5, DoubleSided: r.Intn(2) == 0}
		if r.Intn(3) == 0 {
			m.Ex2 = mqo.NewMaterialEx2(mqo.ShaderNameGlTF)
			m.Ex2.ShaderType = "hlsl"
			m.Ex2.ShaderParams = map[string]interface{}{"Metallic": 0.5, "Roughness": 0.25, "AlphaMode": 1 + r.Intn(3)}
		}
		d.Materials = append(d.Materials, m)
	}
	nm := len(d.Materials)
	target := map[string]bool{}
	for _, m := range morphs {
		target[m] = true
	}
	rename := map[string]string{}
	used := map[string]bool{}
	for _, m := range morphs {
		n := fmt.Sprintf("m%d", len(rename))
		if r.Intn(2) == 0 {
			n = fmt.Sprintf("笑%d", len(rename))
		}
		rename[m] = n
	}
	depth := 0
	for i, o := range d.Objects {
		if t, ok := rename[o.Name]; ok {
			o.Name = t
			depth = 0
		} else {
			n := cliNames[r.Intn(len(cliNames))]
			for used[n] {
				n += "x"
			}
			rename[o.Name], o.Name = n, n
			if i > 0 && !target[d.Objects[i-1].Name] {
				depth += r.Intn(3) - 1
				if depth < 0 {
					depth = 0
				}
			} else {
				depth = 0
			}
			o.Depth = depth
		}
		used[o.Name] = true
		for _, f := range o.Faces {
			f.Material = r.Intn(nm)
		}
	}
	// more objects, in a tree
	for k := r.Intn(6); k > 0; k-- {
		n := cliNames[r.Intn(len(cliNames))]
		for used[n] {
			n += "y"
		}
		used[n] = true
		o := mqo.NewObject(n)
		o.UID = 100 + k
		if len(d.Objects) > 0 {
			o.Depth = r.Intn(d.Objects[len(d.Objects)-1].Depth + 2)
			if last := d.Objects[len(d.Objects)-1].Name; strings.HasPrefix(last, "m") || strings.HasPrefix(last, "笑") {
				o.Depth = 0
			}
		}
		if r.Intn(4) > 0 {
			f, _ := addPolygon(c, o, r.Intn(3))
			f.Material = r.Intn(nm)
		}
		o.Visible = r.Intn(5) > 0
		d.Objects = append(d.Objects, o)
	}
	for _, l := range mqo.GetMorphPlugin(d).Morphs() {
		l.Base = rename[l.Base]
		for _, t := range l.Target {
			t.Name = rename[t.Name]
		}
	}
	for i := range morphs {
		morphs[i] = rename[morphs[i]]
		if r.Intn(3) == 0 {
			d.Materials = append(d.Materials, &mqo.Material{Name: "$MORPH:" + morphs[i] + ":" + d.Materials[r.Intn(nm)].Name, Color: geom.Vector4{X: q8(r), Y: q8(r), Z: q8(r), W: 1}})
		}
	}
	usedB := map[string]bool{}
	for _, b := range mqo.GetBonePlugin(d).Bones() {
		n := cliNames[r.Intn(len(cliNames))]
		for usedB[n] {
			n += "b"
		}
		usedB[n] = true
		b.Name = n
		bones = append(bones, n)
		for _, o := range d.Objects {
			if r.Intn(3) == 0 {
				for i := range o.Vertexes {
					b.SetVertexWeight(o.UID, i+1, float32(r.Intn(5))/4)
				}
			}
		}
	}
	return
}

func q8(r *rand.Rand) float32 { return float32(r.Intn(9)) / 8 }

type cliOpts struct {
	args []string
	s    V3
	// effects, in the order of the tool
	rot      bool
	chparent [][2]string
	tpose    []string
	hide     []string
	hidemat  []string
	morph    []struct {
		n string
		v float64
	}
	alpha [][2]string
	unlit []string
}

func genCliOpts(c *C, d *mqo.Document, bones, morphs []string, visual bool) *cliOpts {
	r := c.R
	o := &cliOpts{s: V3{1, 1, 1}}
	flag := func(n, v string) {
		if r.Intn(2) == 0 {
			o.args = append(o.args, "-"+n, v)
		} else {
			o.args = append(o.args, "--"+n+"="+v)
		}
	}
	num := func() float64 { return []float64{0.5, 2, 0.001, 1000, 1.25, 3, 1}[r.Intn(7)] }
	fl := func(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }
	if r.Intn(3) == 0 {
		v := num()
		flag("scale", fl(v))
		o.s = o.s.mul(v)
		c.Obs("scale")
	}
	for i, a := range []string{"X", "Y", "Z"} {
		if r.Intn(5) == 0 {
			v := num()
			flag("scale"+a, fl(v))
			o.s[i] *= v
			c.Obs("axis_scale")
		}
	}
	if r.Intn(5) == 0 {
		o.args = append(o.args, "-rot180")
		o.s[0], o.s[2] = -o.s[0], -o.s[2]
		o.rot = true
		c.Obs("rot180")
	}
	var objs, mats []string
	for _, x := range d.Objects {
		objs = append(objs, x.Name)
	}
	for _, x := range d.Materials {
		if !strings.HasPrefix(x.Name, "$") {
			mats = append(mats, x.Name)
		}
	}
	if r.Intn(3) == 0 {
		o.hide = cliPatterns(c, objs)
		flag("hide", strings.Join(o.hide, ","))
	}
	if r.Intn(3) == 0 {
		o.hidemat = cliPatterns(c, mats)
		flag("hidemat", strings.Join(o.hidemat, ","))
	}
	if r.Intn(3) == 0 {
		o.unlit = cliPatterns(c, mats)
		flag("unlit", strings.Join(o.unlit, ","))
	}
	if r.Intn(3) == 0 {
		var l []string
		for k := 1 + r.Intn(3); k > 0; k-- {
			p := [2]string{cliPattern(c, mats), []string{"opaque", "mask", "blend", "0", "0.5", "0.125", "1"}[r.Intn(7)]}
			o.alpha = append(o.alpha, p)
			l = append(l, p[0]+":"+p[1])
		}
		flag("alpha", strings.Join(l, ","))
	}
	if visual {
		return o
	}
	if len(morphs) > 0 && r.Intn(3) == 0 {
		var l []string
		for k := 1 + r.Intn(2); k > 0; k-- {
			n := morphs[r.Intn(len(morphs))]
			if r.Intn(8) == 0 {
				n = "nothing"
			}
			v := []float64{1, 0.5, 0, 0.25, -0.5}[r.Intn(5)]
			o.morph = append(o.morph, struct {
				n string
				v float64
			}{n, v})
			l = append(l, n+":"+fl(v))
		}
		flag("morph", strings.Join(l, ","))
	}
	if len(bones) > 1 && r.Intn(3) == 0 {
		i := r.Intn(len(bones))
		b := mqo.GetBonePlugin(d).Bones()
		byID := map[int]*mqo.Bone{}
		for _, x := range b {
			byID[x.ID] = x
		}
		var cand []string
		for _, x := range b {
			ok := true
			for y := x; y != nil; y = byID[y.Parent] {
				if y == b[i] {
					ok = false
					break
				}
			}
			if ok {
				cand = append(cand, x.Name)
			}
		}
		if len(cand) > 0 {
			o.chparent = append(o.chparent, [2]string{b[i].Name, cand[r.Intn(len(cand))]})
			l := o.chparent[0][0] + ":" + o.chparent[0][1]
			if r.Intn(4) == 0 {
				l += ",no such bone:" + cand[0]
			}
			flag("chparent", l)
		}
	}
	if r.Intn(4) == 0 {
		o.tpose = cliPatterns(c, bones)
		flag("autotpose", strings.Join(o.tpose, ","))
	}
	return o
}

// applyCli is the reference: the options applied to a loaded document.
func applyCli(c *C, d *mqo.Document, o *cliOpts) (unlit map[int]bool, moved float64) {
	moved = 1
	for _, x := range d.Objects {
		for _, v := range x.Vertexes {
			*v = *(V3{float64(v.X) * o.s[0], float64(v.Y) * o.s[1], float64(v.Z) * o.s[2]}).g()
			moved = maxf(moved, v3(v).maxAbs())
		}
	}
	bs := mqo.GetBonePlugin(d).Bones()
	byName := map[string]*mqo.Bone{}
	for _, b := range bs {
		b.Pos.Vector3 = *(V3{float64(b.Pos.X) * o.s[0], float64(b.Pos.Y) * o.s[1], float64(b.Pos.Z) * o.s[2]}).g()
		byName[b.Name] = b
	}
	for _, p := range o.chparent {
		byName[p[0]].Parent = byName[p[1]].ID
		c.Obs("chparent")
	}
	if o.tpose != nil {
		for _, b := range bs {
			if globAny(o.tpose, b.Name) {
				d.BoneAdjustX(b)
				c.Obs("tpose")
			}
		}
	}
	par := refParents(d.Objects)
	hidden := map[int]bool{}
	for i, x := range d.Objects {
		if o.hide != nil && globAny(o.hide, x.Name) {
			hidden[i] = true
			c.Obs("hide")
		} else if par[i] >= 0 && hidden[par[i]] {
			hidden[i] = true
			c.Obs("hide_child")
		}
		if hidden[i] {
			x.Visible = false
		}
	}
	for _, m := range d.Materials {
		if o.hidemat != nil && globAny(o.hidemat, m.Name) {
			m.Name += "$IGNORE"
			m.Color.W = 0
			c.Obs("hidemat")
		}
	}
	for _, m := range o.morph {
		st := stateOf(d)
		st.refMorph(c, mqo.GetMorphPlugin(d).Morphs(), m.n, m.v)
		st.refMatMorph(c, m.n, m.v, d.Materials)
		for _, x := range d.Objects {
			for i, v := range x.Vertexes {
				*v = *st.pos[x.Name][i].g()
			}
		}
		for _, x := range d.Materials {
			v := st.mat[x.Name]
			x.Color = geom.Vector4{X: float32(v[0]), Y: float32(v[1]), Z: float32(v[2]), W: float32(v[3])}
		}
		c.Obs("morph")
	}
	for _, a := range o.alpha {
		for _, m := range d.Materials {
			if !glob([]rune(a[0]), []rune(m.Name)) {
				continue
			}
			mode := 0
			switch a[1] {
			case "opaque":
				mode = mqo.AlphaModeOpaque
				m.Color.W = 1
			case "mask":
				mode = mqo.AlphaModeMask
			case "blend":
				mode = mqo.AlphaModeBlend
			case "0":
				m.Name += "$IGNORE"
				m.Color.W = 0
				c.Obs("alpha_zero")
			default:
				v, _ := strconv.ParseFloat(a[1], 64)
				m.Color.W = float32(v)
				if m.Ex2 != nil {
					mode = mqo.AlphaModeBlend
				}
				c.Obs("alpha_value")
			}
			if mode != 0 {
				if m.Ex2 == nil {
					m.Ex2 = mqo.NewMaterialEx2(mqo.ShaderNameGlTF)
					if m.Shader == mqo.ShaderConstant {
						m.Ex2.ShaderParams["Extensions.Unlit"] = true
						c.Obs("constant_alpha")
					}
				}
				m.Ex2.ShaderParams["AlphaMode"] = mode
				c.Obs("alpha_mode")
			}
		}
	}
	unlit = map[int]bool{}
	for i, m := range d.Materials {
		if o.unlit != nil && globAny(o.unlit, m.Name) {
			unlit[i] = true
			c.Obs("unlit")
			if m.Ex2 != nil {
				c.Obs("unlit_alpha")
			}
		}
	}
	return
}

func maxf(a, b float64) float64 {
	if b > a {
		return b
	}
	return a
}

func cliOptionCase(c *C) {
	d, bones, morphs := genCliDoc(c)
	o := genCliOpts(c, d, bones, morphs, false)
	in := filepath.Join(c.Dir(), "in.mqo")
	if err := mqo.Save(d, in); err != nil {
		c.Fatalf("%v", err)
	}
	want, err := mqo.Load(in)
	if err != nil {
		c.Fatalf("%v", err)
	}
	unlit, mag := applyCli(c, want, o)
	out := filepath.Join(c.Dir(), "out.mqo")
	mustCLI(c, c.Dir(), append(append([]string(nil), o.args...), in, out)...)
	got, err := mqo.Load(out)
	if err != nil {
		c.Fatalf("%v", err)
	}
	if len(got.Materials) != len(want.Materials) {
		c.Fatalf("%v: %d materials, want %d", o.args, len(got.Materials), len(want.Materials))
	}
	for i, m := range got.Materials {
		if unlit[i] {
			ok := m.GetShaderName() == "Constant" || m.Ex2 != nil && m.Ex2.BoolParam("Extensions.Unlit")
			if !ok {
				c.Failf("%v: material %q is not unlit: %v", o.args, m.Name, m.GetShaderName())
			}
			if w := want.Materials[i]; w.Ex2 != nil && w.Ex2.IntParam("AlphaMode") > 1 && (m.Ex2 == nil || m.Ex2.IntParam("AlphaMode") != w.Ex2.IntParam("AlphaMode")) {
				c.Failf("%v: unlit material %q has lost its alpha mode", o.args, m.Name)
			}
			m.Shader, m.Ex2 = want.Materials[i].Shader, want.Materials[i].Ex2
		}
		if m.Ex2 != nil && want.Materials[i].Ex2 != nil {
			a, b := m.Ex2, want.Materials[i].Ex2
			for _, k := range []string{"AlphaMode"} {
				if a.IntParam(k) != b.IntParam(k) {
					c.Failf("%v: material %q: %s is %v, want %v", o.args, m.Name, k, a.ShaderParams[k], b.ShaderParams[k])
				}
			}
			if a.BoolParam("Extensions.Unlit") != b.BoolParam("Extensions.Unlit") {
				c.Failf("%v: material %q: unlit is %v, want %v", o.args, m.Name, a.BoolParam("Extensions.Unlit"), b.BoolParam("Extensions.Unlit"))
			}
			m.Ex2 = b
		}
	}
	df := mqoDiffer()
	for _, n := range []string{"Scale", "Rotation", "Translation"} { // P07
		df.skip["Object."+n] = true
	}
	df.tolFor["Object.Vertexes"] = 2e-5 * mag
	df.tolFor["Bone.Pos"] = 2e-5 * mag
	df.walkAny(want, got)
	for _, t := range []reflect.Type{reflect.TypeOf(&mqo.BonePlugin{}), reflect.TypeOf(&mqo.MorphPlugin{})} {
		if a, b := pluginOf(want, t), pluginOf(got, t); a != nil && b != nil {
			df.tol = 1e-5
			df.tolFor["Bone.Pos"] = 2e-5 * maxf(mag, 1000*o.s.maxAbs())
			df.walk(t.Elem().Name(), reflect.ValueOf(a), reflect.ValueOf(b))
		} else if (a == nil) != (b == nil) && len(bones) > 0 {
			c.Failf("%v: plugin %v lost", o.args, t)
		}
	}
	if len(df.out) > 0 {
		c.Fatalf("modelconv %s: result differs: %v", strings.Join(o.args, " "), df.out)
	}
	c.Sig("%d", len(o.args))
}

// cliVisualCase: what the options do to the glTF output.
func cliVisualCase(c *C) {
	d, bones, morphs := genCliDoc(c)
	o := genCliOpts(c, d, bones, morphs, true)
	in := filepath.Join(c.Dir(), "in.mqo")
	if err := mqo.Save(d, in); err != nil {
		c.Fatalf("%v", err)
	}
	ld, err := mqo.Load(in)
	if err != nil {
		c.Fatalf("%v", err)
	}
	orig := make([]string, len(ld.Materials))
	for i, m := range ld.Materials {
		orig[i] = m.Name
	}
	unlit, _ := applyCli(c, ld, o)
	mustCLI(c, c.Dir(), in, "ref.glb")
	ext := []string{"out.glb", "out.gltf"}[c.R.Intn(2)]
	mustCLI(c, c.Dir(), append(append([]string(nil), o.args...), in, ext)...)
	a, err := loadGltfFile(filepath.Join(c.Dir(), "ref.glb"))
	must(err)
	b, err := loadGltfFile(filepath.Join(c.Dir(), ext))
	if err != nil {
		c.Fatalf("%v", err)
	}
	checkGltf(c, b)
	// triangles per material, node by node
	tris := func(g *gDoc) map[string]map[string][][3]V3 {
		w, _ := g.worlds()
		out := map[string]map[string][][3]V3{}
		for i, n := range g.Nodes {
			if n.Mesh == nil {
				continue
			}
			for m, l := range g.triangles(c, i, w[i]) {
				if out[n.Name] == nil {
					out[n.Name] = map[string][][3]V3{}
				}
				for _, t := range l {
					out[n.Name][m] = append(out[n.Name][m], [3]V3{t[0].pos, t[1].pos, t[2].pos})
				}
			}
		}
		return out
	}
	ta, tb := tris(a), tris(b)
	gone := map[string]bool{}
	state := map[string]*mqo.Material{}
	un := map[string]bool{}
	for i, m := range ld.Materials {
		if strings.HasSuffix(m.Name, "$IGNORE") {
			gone[orig[i]] = true
		}
		state[orig[i]] = m
		un[orig[i]] = unlit[i]
	}
	vis := map[string]bool{}
	for _, x := range ld.Objects {
		vis[x.Name] = x.Visible
	}
	mag := 1.0
	for n, ms := range ta {
		for m, l := range ms {
			g := tb[n][m]
			if gone[m] || !vis[n] {
				if len(g) > 0 {
					c.Fatalf("%v: %d triangles of object %q, material %q are still there", o.args, len(g), n, m)
				}
				c.Obs("glb_hidden")
				continue
			}
			var wp, gp [][]float64
			for _, t := range l {
				var x []float64
				for _, v := range t {
					for k := range v {
						x = append(x, v[k]*o.s[k])
						mag = maxf(mag, x[len(x)-1])
					}
				}
				wp = append(wp, x)
			}
			for _, t := range g {
				var x []float64
				for _, v := range t {
					x = append(x, v[:]...)
				}
				gp = append(gp, x)
			}
			if e := matchSets(wp, gp, 1e-5*mag); e != "" {
				c.Fatalf("%v: object %q, material %q: %s", o.args, n, m, e)
			}
			c.Obs("glb_scaled")
		}
	}
	for n, ms := range tb {
		for m, l := range ms {
			if len(ta[n][m]) != len(l) {
				c.Fatalf("%v: %d triangles of object %q, material %q appeared", o.args, len(l), n, m)
			}
		}
	}
	ref := map[string]gMaterial{}
	for _, m := range a.Materials {
		ref[m.Name] = m
	}
	for _, m := range b.Materials {
		w, ok := state[m.Name]
		if !ok || gone[m.Name] {
			continue
		}
		c.Obs("glb_material")
		_, gu := m.Extensions["KHR_materials_unlit"]
		_, ru := ref[m.Name].Extensions["KHR_materials_unlit"]
		if gu != (ru || un[m.Name]) {
			c.Failf("%v: material %q: unlit is %v (before %v, option %v)", o.args, m.Name, gu, ru, un[m.Name])
		}
		mode, want := m.AlphaMode, "OPAQUE"
		if mode == "" {
			mode = "OPAQUE"
		}
		if w.Ex2 != nil {
			want = []string{"", "OPAQUE", "MASK", "BLEND"}[w.Ex2.IntParam("AlphaMode")]
		} else if w.Color.W < 0.99 {
			want = "BLEND"
		}
		if mode != want {
			c.Failf("%v: material %q: alpha mode %s, want %s", o.args, m.Name, mode, want)
		}
		col := []float64{float64(w.Color.X), float64(w.Color.Y), float64(w.Color.Z), float64(w.Color.W)}
		if m.PBR == nil || m.PBR.BaseColorFactor == nil {
			if !(col[0] == 1 && col[1] == 1 && col[2] == 1 && col[3] == 1) {
				c.Failf("%v: material %q has no colour", o.args, m.Name)
			}
			continue
		}
		for k := range col {
			if !near(col[k], m.PBR.BaseColorFactor[k], 1e-3) {
				c.Failf("%v: material %q: colour %v, want %v", o.args, m.Name, m.PBR.BaseColorFactor, col)
				break
			}
		}
	}
	c.Sig("%d %d", len(o.args), len(ta))
}

// cliMmdScaleCase: units of MMD models (80 mm) in every output format.
func cliMmdScaleCase(c *C) {
	r := c.R
	doc := genModel(r, false)
	doc.Morphs, doc.Bodies, doc.Joints = nil, nil, nil
	doc.Bones = nil
	for _, v := range doc.Vertexes {
		v.Bones, v.BoneWeights = []int{-1}, []float32{1}
	}
	n := 0
	for _, m := range doc.Materials {
		m.TextureID, m.EnvID, m.ToonType, m.Toon = -1, -1, 1, 0
		m.Color.W = 1
		n += m.Count
	}
	if n == 0 {
		return
	}
	in := filepath.Join(c.Dir(), "in.pmx")
	ext := 0
	if len(doc.Vertexes) > 0 {
		ext = len(doc.Vertexes[0].ExtUVs)
	}
	must(os.WriteFile(in, encPMX(doc, pmxOpts{sz: randSizes(r, doc), extUV: ext, utf16: r.Intn(2) == 0}, r), 0644))
	s := 80.0
	var args []string
	if r.Intn(2) == 0 {
		s = []float64{1, 2, 0.5, 80}[r.Intn(4)]
		args = append(args, "-scale", fmt.Sprint(s))
	}
	unit := 1.0
	var pts []V3
	switch r.Intn(3) {
	case 0:
		mustCLI(c, c.Dir(), append(args, in, "out.mqo")...)
		d, err := mqo.Load(filepath.Join(c.Dir(), "out.mqo"))
		if err != nil {
			c.Fatalf("%v", err)
		}
		for _, o := range d.Objects {
			for _, f := range o.Faces {
				for _, v := range f.Verts {
					pts = append(pts, v3(o.Vertexes[v]))
				}
			}
		}
	case 1:
		mustCLI(c, c.Dir(), append(args, in, "out.glb")...)
		g, err := loadGltfFile(filepath.Join(c.Dir(), "out.glb"))
		if err != nil {
			c.Fatalf("%v", err)
		}
		pts, _ = evalWorld(c, g, nil)
		pts = pts[:len(pts)-len(g.Nodes)]
		unit = 0.001
	case 2:
		mustCLI(c, c.Dir(), append(args, in, "out.pmx")...)
		data, err := os.ReadFile(filepath.Join(c.Dir(), "out.pmx"))
		must(err)
		g, err := decPMX(data)
		if err != nil {
			c.Fatalf("%v", err)
		}
		for _, f := range g.Faces {
			for _, v := range f.Verts {
				p := g.Vertexes[v].Pos
				p.Z = -p.Z
				pts = append(pts, v3(&p))
			}
		}
		unit = 1.0 / 80
	}
	// the same set of positions
	want := map[[3]int64]bool{}
	q := func(p V3) [3]int64 {
		var k [3]int64
		for i := range p {
			k[i] = int64(p[i]*256 + 1e6)
		}
		return k
	}
	for _, f := range doc.Faces[:n/3] {
		for _, v := range f.Verts {
			p := doc.Vertexes[v].Pos
			p.Z = -p.Z
			want[q(v3(&p))] = true
		}
	}
	for _, p := range pts {
		p = p.mul(1 / (s * unit))
		ok := false
		for dx := int64(-1); dx <= 1 && !ok; dx++ {
			for dy := int64(-1); dy <= 1 && !ok; dy++ {
				for dz := int64(-1); dz <= 1 && !ok; dz++ {
					k := q(p)
					ok = want[[3]int64{k[0] + dx, k[1] + dy, k[2] + dz}]
				}
			}
		}
		if !ok {
			c.Fatalf("%v: point %v of the result (in MMD units) is no vertex of the model", args, p)
		}
	}
	if len(pts) > 0 {
		c.Obs("mmd_scale")
	}
	c.Sig("%v", args)
}

var badOptions = [][]string{
	{"-alpha", "body:what"}, {"-morph", "m0"}, {"-morph", "m0:x"}, {"-chparent", "body"}, {"-chparent", "bone:no such bone"}, {"-nosuchflag"}, {"-scale", "x"}, {"-format", "xyz"}, {"-format", "fbx"},
}

// cliBadOptionCase: wrong options are reported.
func cliBadOptionCase(c *C, args []string) {
	d, _, _ := genCliDoc(c)
	d.Materials[0].Name = "body"
	mqo.GetBonePlugin(d).Bones()[0].Name = "bone"
	in := filepath.Join(c.Dir(), "in.mqo")
	if err := mqo.Save(d, in); err != nil {
		c.Fatalf("%v", err)
	}
	before := treeHashes(c.Dir())
	res := runCLI(c, c.Dir(), append(append([]string(nil), args...), in, "out.mqo")...)
	if res.code == 0 {
		c.Failf("modelconv %v: exit code 0", args)
	}
	if strings.TrimSpace(res.stderr) == "" {
		c.Failf("modelconv %v: no message", args)
	}
	var l []string
	for n := range treeHashes(c.Dir()) {
		if _, ok := before[n]; !ok {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	if len(l) > 0 {
		c.Failf("modelconv %v: wrote %v", args, l)
	}
	c.Obs("bad_option")
	c.Sig("%v", args)
}

// cliMmdBonesCase: -vrmconfig and -mmdFixInheritParentThreshold decide the parents of bones that inherit rotations;
// VRM output of an MMD model has the pose and direction that the options -rot180, -autotpose and -vrmconfig mmd give.
func cliMmdBonesCase(c *C) {
	r := c.R
	doc := genModel(r, false)
	doc.Morphs, doc.Bodies, doc.Joints, doc.Bones = nil, nil, nil, nil
	names := []string{"センター", "上半身", "首", "右腕", "左腕", "右ひじ", "D1", "足D", "x_2"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	nb := 2 + r.Intn(len(names)-2)
	arms := false
	for i := 0; i < nb; i++ {
		b := &mmd.Bone{Name: names[i], ParentID: i - 1 - r.Intn(2), Flags: 0x1a, TailID: -1, InheritParentID: -1, Pos: mmd.Vector3{X: float32(r.NormFloat64()), Y: float32(i) + r.Float32(), Z: r.Float32()}}
		if b.ParentID < -1 {
			b.ParentID = -1
		}
		if i > 0 && r.Intn(2) == 0 {
			b.Flags |= 0x100
			b.InheritParentID = r.Intn(i)
			b.InheritParentInfluence = []float32{0.1, 0.25, 0.5, 0.75, 1}[r.Intn(5)]
		}
		b.IK.TargetID = -1
		arms = arms || strings.HasSuffix(b.Name, "腕")
		doc.Bones = append(doc.Bones, b)
	}
	for _, v := range doc.Vertexes {
		k := r.Intn(nb)
		v.Bones, v.BoneWeights = []int{k}, []float32{1}
		if r.Intn(2) == 0 && nb > 1 {
			v.Bones, v.BoneWeights = []int{k, (k + 1) % nb}, []float32{0.25, 0.75}
		}
	}
	for _, m := range doc.Materials {
		m.TextureID, m.EnvID, m.ToonType, m.Toon = -1, -1, 1, 0
		m.Color.W = 1
	}
	ext := 0
	if len(doc.Vertexes) > 0 {
		ext = len(doc.Vertexes[0].ExtUVs)
	}
	in := filepath.Join(c.Dir(), "in.pmx")
	must(os.WriteFile(in, encPMX(doc, pmxOpts{sz: randSizes(r, doc), extUV: ext, utf16: r.Intn(2) == 0}, r), 0644))
	known := map[string]bool{}
	var maps ja
	for _, n := range names {
		if r.Intn(3) > 0 {
			known[n] = true
			maps = append(maps, jm{"bone": "hips", "nodeNames": ja{"nothing", n}})
		}
	}
	js, err := json.Marshal(jm{"boneMappings": maps})
	must(err)
	must(os.WriteFile(filepath.Join(c.Dir(), "conf.json"), js, 0644))
	var args []string
	if r.Intn(4) > 0 {
		args = append(args, "-vrmconfig", "./conf.json")
		c.Obs("mmd_config")
	} else {
		known = nil
	}
	threshold := 0.4
	if r.Intn(2) == 0 {
		threshold = []float64{0, 0.2, 0.6, 0.9}[r.Intn(4)]
		args = append(args, "-mmdFixInheritParentThreshold", fmt.Sprint(threshold))
	}
	mustCLI(c, c.Dir(), append(args, in, "out.mqo")...)
	d, err := mqo.Load(filepath.Join(c.Dir(), "out.mqo"))
	if err != nil {
		c.Fatalf("%v", err)
	}
	bones := mqo.GetBonePlugin(d).Bones()
	if len(bones) != nb {
		c.Fatalf("%v: %d bones became %d", args, nb, len(bones))
	}
	nameOf := map[int]string{}
	for _, b := range bones {
		nameOf[b.ID] = b.Name
	}
	for i, b := range doc.Bones {
		want := ""
		if b.ParentID >= 0 {
			want = doc.Bones[b.ParentID].Name
		}
		if b.InheritParentID >= 0 && float64(b.InheritParentInfluence) > threshold && known[doc.Bones[b.InheritParentID].Name] {
			want = doc.Bones[b.InheritParentID].Name
			c.Obs("mmd_reparented")
		}
		if bones[i].Name != b.Name || nameOf[bones[i].Parent] != want {
			c.Fatalf("%v: bone %q (influence %v of bone %d) became %q with the parent %q, want %q", args, b.Name, b.InheritParentInfluence, b.InheritParentID, bones[i].Name, nameOf[bones[i].Parent], want)
		}
	}
	if r.Intn(2) > 0 {
		return
	}
	points := func(name string, args ...string) []V3 {
		mustCLI(c, c.Dir(), append(args, in, name)...)
		g, err := loadGltfFile(filepath.Join(c.Dir(), name))
		if err != nil {
			c.Fatalf("%s: %v", name, err)
		}
		pts, _ := evalWorld(c, g, nil)
		return pts[:len(pts)-len(g.Nodes)]
	}
	a := points("out.vrm")
	ref := points("ref.glb", "-rot180", "-autotpose", "右腕,左腕", "-vrmconfig", "mmd")
	same := func(what string, a, b []V3, s float64) {
		if len(a) != len(b) {
			c.Fatalf("%s: %d points, want %d", what, len(a), len(b))
		}
		mag := 1e-3
		for _, p := range b {
			mag = math.Max(mag, p.maxAbs())
		}
		for i, p := range b {
			if w := (V3{p[0] * s, p[1], p[2] * s}); a[i].sub(w).maxAbs() > mag*2e-5 {
				c.Fatalf("%s: point %d is at %v, want %v", what, i, a[i], w)
			}
		}
	}
	same("VRM of an MMD model and the options it stands for", a, ref, 1)
	if !arms {
		same("VRM of an MMD model", a, points("plain.glb", "-vrmconfig", "mmd"), -1)
		c.Obs("mmd_vrm_turned")
	}
	if len(a) > 0 {
		c.Obs("mmd_vrm")
	}
	// a configuration of one's own is used instead of the preset
	title := fmt.Sprintf("title %d", r.Intn(1000))
	js, err = json.Marshal(jm{"meta": jm{"title": title}})
	must(err)
	var own []string
	if r.Intn(2) == 0 {
		must(os.WriteFile(filepath.Join(c.Dir(), "in.vrmconfig.json"), js, 0644))
	} else {
		must(os.WriteFile(filepath.Join(c.Dir(), "own.json"), js, 0644))
		own = []string{"-vrmconfig", "own.json"}
	}
	mustCLI(c, c.Dir(), append(own, in, "own.vrm")...)
	g, err := loadGltfFile(filepath.Join(c.Dir(), "own.vrm"))
	if err != nil {
		c.Fatalf("own.vrm: %v", err)
	}
	var v jm
	must(json.Unmarshal(g.Extensions["VRM"], &v))
	meta, _ := v["meta"].(jm)
	if jstr(meta["title"]) != title {
		c.Failf("%v: the title of a configured VRM file of an MMD model is %v, want %q", own, meta["title"], title)
	}
	c.Obs("mmd_own_config")
	c.Sig("%v %d %v", args, nb, arms)
}

// cliConverterCase: the options of the glTF converter reach it through the
// command line, each the one it belongs to; what they do is decided by P14,
// P16 and P34 on the converter itself.
func cliConverterCase(c *C) {
	r := c.R
	dir := c.Dir()
	kind := []string{"mqo", "mqo", "unity"}[r.Intn(3)]
	var in string
	if kind == "mqo" {
		d, _, _ := genCliDoc(c)
		files := decorateMaterials(c, d, dir)
		var names []string
		for n := range files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if f := files[n]; f.kind == "png" && r.Intn(2) == 0 { // half transparent
				img := image.NewNRGBA(image.Rect(0, 0, 8*(1+r.Intn(4)), 8*(1+r.Intn(4))))
				for i := range img.Pix {
					img.Pix[i] = uint8(r.Intn(256))
				}
				var b bytes.Buffer
				must(png.Encode(&b, img))
				p := n
				if !filepath.IsAbs(p) {
					p = filepath.Join(dir, n)
				}
				must(os.WriteFile(p, b.Bytes(), 0644))
			}
		}
		for _, o := range d.Objects {
			for _, f := range o.Faces {
				f.UVs = nil
				for range f.Verts {
					f.UVs = append(f.UVs, geom.Vector2{X: r.Float32(), Y: r.Float32()})
				}
			}
		}
		genVrmPhysics(c, d)
		in = filepath.Join(dir, "in.mqo")
		must(mqo.Save(d, in))
	} else {
		in = genUnity(c, true).writeProject(filepath.Join(dir, "proj"))
	}
	opt := &converter.MQOToGLTFOption{TextureResolutionLimit: 4096, TextureScale: 1}
	var args []string
	var used []string
	flag := func(name string, p *bool) {
		if r.Intn(3) == 0 {
			*p = true
			args = append(args, "-"+name)
			used = append(used, name)
		}
	}
	flag("texReCompress", &opt.TextureReCompress)
	flag("reuseGeometry", &opt.ReuseGeometry)
	flag("ignoreHierarchy", &opt.IgnoreObjectHierarchy)
	flag("physics", &opt.ConvertPhysics)
	flag("detectAlphaTexture", &opt.DetectAlphaTexture)
	flag("gltfExportLight", &opt.ExportLights)
	if r.Intn(3) == 0 {
		opt.TextureBytesThreshold = []int64{1, 300, 1000}[r.Intn(3)]
		args = append(args, "-texBytesThreshold", fmt.Sprint(opt.TextureBytesThreshold))
		used = append(used, "texBytesThreshold")
	}
	if r.Intn(3) == 0 {
		opt.TextureResolutionLimit = []int{0, 4, 16}[r.Intn(3)]
		args = append(args, fmt.Sprintf("-texResolutionLimit=%d", opt.TextureResolutionLimit))
		used = append(used, "texResolutionLimit")
	}
	if r.Intn(3) == 0 {
		opt.TextureScale = []float32{0.5, 0.25}[r.Intn(2)]
		args = append(args, "-texResizeScale", fmt.Sprint(opt.TextureScale))
		used = append(used, "texResizeScale")
	}
	r.Shuffle(len(used), func(i, j int) { used[i], used[j] = used[j], used[i] })
	out := filepath.Join(dir, "out.glb")
	mustCLI(c, dir, append(args, in, out)...)
	got, err := os.ReadFile(out)
	must(err)
	lib := func(o converter.MQOToGLTFOption) []byte {
		var d *mqo.Document
		base := dir
		var err error
		if kind == "mqo" {
			d, err = mqo.Load(in)
		} else {
			p := strings.Index(in, "/Assets/")
			var as unity.Assets
			as, err = unity.OpenAssets(in[:p+7])
			must(err)
			defer as.Close()
			base = in[:p]
			var sc *unity.Scene
			sc, err = unity.LoadScene(as, in[p+1:])
			if err != nil {
				c.Fatalf("loading the scene: %v", err)
			}
			d, err = converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{ConvertPhysics: o.ConvertPhysics, SaveTexrure: true}).Convert(sc)
		}
		if err != nil {
			c.Fatalf("loading the input: %v", err)
		}
		g, err := converter.NewMQOToGLTFConverter(&o).Convert(d, base)
		if err != nil {
			c.Fatalf("conversion failed: %v", err)
		}
		p := filepath.Join(dir, "lib.glb")
		must(gltfutil.ToSingleFile(g, base))
		must(gltfutil.SaveBinary(g, p))
		b, err := os.ReadFile(p)
		must(err)
		return b
	}
	want := lib(*opt)
	if !bytes.Equal(got, want) {
		x, e1 := loadGltfFile(out)
		y, e2 := loadGltfFile(filepath.Join(dir, "lib.glb"))
		if e1 == nil && e2 == nil {
			c.Failf("%v gives %d images, %d accessors, %d nodes, %d bytes; the converter with these options %d, %d, %d, %d", args, len(x.Images), len(x.Accessors), len(x.Nodes), len(got), len(y.Images), len(y.Accessors), len(y.Nodes), len(want))
		} else {
			c.Failf("%v: %v %v", args, e1, e2)
		}
	}
	c.Obs("converter_options")
	c.Sig("%s %v", kind, args)
	// which of the options mattered here
	for _, n := range used {
		o := *opt
		switch n {
		case "texReCompress":
			o.TextureReCompress = false
		case "reuseGeometry":
			o.ReuseGeometry = false
		case "ignoreHierarchy":
			o.IgnoreObjectHierarchy = false
		case "physics":
			o.ConvertPhysics = false
		case "detectAlphaTexture":
			o.DetectAlphaTexture = false
		case "gltfExportLight":
			o.ExportLights = false
		case "texBytesThreshold":
			o.TextureBytesThreshold = 0
		case "texResolutionLimit":
			o.TextureResolutionLimit = 4096
		case "texResizeScale":
			o.TextureScale = 1
		}
		if !bytes.Equal(lib(o), want) {
			c.Obs("effect_" + n)
		}
	}
}
