package main

// P19: glTF to glTF through the command line tool.

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
)

func init() {
	register(&Prop{
		ID:   "P19",
		Rule: "seeded glTF files as other programs write them (several buffers, data URIs, escaped URIs, interleaved attributes, byte offsets, node matrices, skins sharing bind matrices, morph targets, animations with all interpolations, textures in files, views and data URIs, extras, unknown extensions) are converted by the real command line tool to .glb and .gltf with and without -scale; source and result are both read by an independent reader, evaluated to world positions in rest pose, morphed and at every animation key, and compared",
		Assumptions: []string{
			"-scale is uniform and positive; sparse POSITION accessors are out of scope when scaling (the tool refuses them)",
			"when the output is a .gltf in another directory, images in separate files are out of scope (only buffers are written)",
		},
		Require: []string{"to_glb", "to_gltf", "scaled", "unscaled", "world_point", "skinned_point", "morphed_point", "anim_translation", "anim_point", "several_buffers", "image_file", "image_view", "image_data_uri", "buffer_escaped_uri", "buffer_data_uri", "shared_ibm", "interleaved", "sparse", "unicode_output"},
		Cases: func(r *Run) {
			r.Repeat("convert", r.N(700, 6000), gltfToGltfCase)
		},
	})
}

type cliResult struct {
	code   int
	signal string
	stderr string
	stdout string
}

// runCLI executes the real tool in dir. CPU time and memory are limited so
// that a diverging run ends with a signal.
func runCLI(c *C, dir string, args ...string) cliResult {
	cli := os.Getenv("VH_CLI")
	if cli == "" {
		panic(infra{fmt.Errorf("VH_CLI is not set")})
	}
	cmd := exec.Command("/bin/sh", append([]string{"-c", `ulimit -t 20; ulimit -v 8000000; ulimit -c 0; exec "$0" "$@"`, cli}, args...)...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	err := cmd.Run()
	res := cliResult{stdout: so.String(), stderr: se.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(infra{err})
		}
		res.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.signal = ws.Signal().String()
		}
	}
	c.Obs("cli_run")
	if res.signal != "" {
		c.Fatalf("modelconv %s ended by signal %s\n%s", strings.Join(args, " "), res.signal, tail(res.stderr, 600))
	}
	if strings.Contains(res.stderr, "goroutine ") && strings.Contains(res.stderr, "[running]") {
		c.Fatalf("modelconv %s crashed\n%s", strings.Join(args, " "), tail(res.stderr, 2000))
	}
	return res
}

func mustCLI(c *C, dir string, args ...string) cliResult {
	res := runCLI(c, dir, args...)
	if res.code != 0 {
		c.Fatalf("modelconv %s failed with exit code %d\n%s", strings.Join(args, " "), res.code, tail(res.stderr, 600))
	}
	return res
}

func treeHashes(dir string) map[string][32]byte {
	out := map[string][32]byte{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			must(err)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = sha256.Sum256(b)
		}
		return nil
	})
	return out
}

func gltfToGltfCase(c *C) {
	r := c.R
	g := newGGen(c)
	g.Anim, g.Skins, g.Morphs, g.Cameras, g.SharedIBM = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, true
	g.Lines, g.Mirror = r.Intn(3) == 0, r.Intn(3) == 0
	dir := c.Dir()
	toGLB := r.Intn(3) > 0
	otherDir := r.Intn(3) == 0
	g.ExtImages = toGLB || !otherDir
	scale := 1.0
	if r.Intn(2) == 0 {
		scale = []float64{2, 0.5, 0.01, 80, 3.25, 1000}[r.Intn(6)]
	}
	g.build(1+r.Intn(8), r.Intn(4), r.Intn(4))
	if scale == 1 && r.Intn(3) == 0 {
		g.addSparse()
	}
	inGLB := r.Intn(2) == 0
	in := g.write(dir, "in", inGLB)
	src, err := loadGltfFile(in)
	must(err)
	if v := src.validate(); len(v.errs) > 0 {
		panic(infra{fmt.Errorf("generated glTF is invalid: %v", v.errs)})
	}
	outDir := dir
	if otherDir {
		outDir = filepath.Join(dir, "out dir")
		must(os.MkdirAll(outDir, 0755))
	}
	base := []string{"out", "in", "モデル", "my model", "100%"}[r.Intn(5)]
	if base == "in" && !otherDir && inGLB == toGLB {
		base = "out"
	}
	if base != "out" && base != "in" {
		c.Obs("unicode_output")
	}
	ext := ".gltf"
	if toGLB {
		ext = ".glb"
	}
	out := filepath.Join(outDir, base+ext)
	before := treeHashes(dir)
	var args []string
	if scale != 1 {
		args = append(args, "-scale", fmt.Sprint(scale))
		c.Obs("scaled")
	} else {
		c.Obs("unscaled")
	}
	// run from another directory now and then: paths must not depend on it
	cwd, inArg, outArg := dir, in, out
	if r.Intn(2) == 0 {
		inArg, _ = filepath.Rel(dir, in)
		outArg, _ = filepath.Rel(dir, out)
	} else {
		cwd = "/"
	}
	mustCLI(c, cwd, append(args, inArg, outArg)...)
	c.Obs("to_" + ext[1:])
	after := treeHashes(dir)
	for p, h := range before {
		if after[p] != h {
			c.Failf("the conversion changed the existing file %q", p)
		}
	}
	got, err := loadGltfFile(out)
	if err != nil {
		c.Fatalf("the result cannot be read: %v", err)
	}
	if toGLB {
		for i, b := range got.Buffers {
			if b.URI != "" {
				c.Failf("buffer %d of the GLB is in another file: %.60s", i, b.URI)
			}
		}
	}
	checkGltf(c, got)
	c.Sig("n%d m%d s%d a%d t%v g%v%v sc%v", len(src.Nodes), len(src.Meshes), len(src.Skins), len(src.Animations), len(src.Images), inGLB, toGLB, scale)

	cs, cg := canonGltf(c, src, in, toGLB), canonGltf(c, got, out, toGLB)
	if scale != 1 {
		stripPositions(cs)
		stripPositions(cg)
	}
	if d := jsonDiff("", cs, cg); len(d) > 0 {
		c.Fatalf("the document changed: %s", strings.Join(head(d, 5), "; "))
	}
	compareWorlds(c, src, got, scale)
}

// addSparse gives one POSITION accessor sparse replacements (not for scaling).
func (g *gGen) addSparse() {
	for i, a := range g.accs {
		j := a.(jm)
		if j["type"] == "VEC2" && j["componentType"] == 5126 && j["count"].(int) >= 2 {
			ib := &bin{}
			ib.u16(0)
			ib.u16(1)
			vb := &bin{}
			vb.f32s(1, 2, 3, 4)
			j["sparse"] = jm{"count": 2,
				"indices": jm{"bufferView": g.view(ib.Bytes(), 0, 0), "componentType": 5123},
				"values":  jm{"bufferView": g.view(vb.Bytes(), 0, 0)}}
			_ = i
			g.c.Obs("sparse")
			g.doc["bufferViews"] = g.views
			return
		}
	}
}

// canonGltf resolves accessors and images into their values and removes
// default values, leaving only what the document means.
func canonGltf(c *C, d *gDoc, path string, toGLB bool) jm {
	var raw jm
	must(json.Unmarshal(d.json, &raw))
	acc := func(v interface{}) interface{} {
		i := int(v.(float64))
		rows, err := d.read(i)
		if err != nil {
			c.Fatalf("%v", err)
		}
		a := d.Accessors[i]
		var l ja
		for _, r := range rows {
			for _, x := range r {
				l = append(l, x)
			}
		}
		res := jm{"type": a.Type, "comp": a.ComponentType, "norm": a.Normalized, "data": l}
		if a.Sparse != nil {
			var sp struct {
				Count   int
				Indices struct{ BufferView, ByteOffset, ComponentType int }
				Values  struct{ BufferView, ByteOffset int }
			}
			must(json.Unmarshal(a.Sparse, &sp))
			iv, err := d.viewData(sp.Indices.BufferView)
			if err != nil {
				c.Fatalf("%v", err)
			}
			vv, err := d.viewData(sp.Values.BufferView)
			if err != nil {
				c.Fatalf("%v", err)
			}
			res["sparse"] = fmt.Sprintf("%d %x %x", sp.Count, iv[sp.Indices.ByteOffset:], vv[sp.Values.ByteOffset:])
		}
		return res
	}
	each := func(v interface{}, f func(m jm)) {
		l, _ := v.(ja)
		for _, x := range l {
			f(x.(jm))
		}
	}
	each(raw["meshes"], func(m jm) {
		each(m["primitives"], func(p jm) {
			at := p["attributes"].(jm)
			for k := range at {
				at[k] = acc(at[k])
			}
			if v, ok := p["indices"]; ok {
				p["indices"] = acc(v)
			}
			each(p["targets"], func(t jm) {
				for k := range t {
					t[k] = acc(t[k])
				}
			})
		})
	})
	each(raw["skins"], func(s jm) {
		if v, ok := s["inverseBindMatrices"]; ok {
			s["inverseBindMatrices"] = acc(v)
		}
	})
	each(raw["animations"], func(a jm) {
		each(a["samplers"], func(s jm) {
			s["input"], s["output"] = acc(s["input"]), acc(s["output"])
		})
	})
	for i, im := range d.Images {
		m := raw["images"].(ja)[i].(jm)
		var data []byte
		var err error
		mime := im.MimeType
		if im.BufferView != nil {
			data, err = d.viewData(*im.BufferView)
		} else {
			data, err = readURI(filepath.Dir(path), im.URI)
			if strings.HasPrefix(im.URI, "data:") {
				mime = im.URI[5:strings.Index(im.URI, ";")]
			} else if mime == "" {
				mime = "image/jpeg"
				if strings.HasSuffix(strings.ToLower(im.URI), ".png") {
					mime = "image/png"
				}
			}
		}
		if err != nil {
			c.Fatalf("image %d (%.60s) of %s: %v", i, im.URI, filepath.Base(path), err)
		}
		delete(m, "bufferView")
		delete(m, "uri")
		m["mimeType"] = mime
		m["data"] = fmt.Sprintf("%x", data)
	}
	delete(raw, "buffers")
	delete(raw, "bufferViews")
	delete(raw, "accessors")
	return dropDefaults("", raw).(jm)
}

var gltfDefaults = map[string]string{
	"alphaCutoff": "0.5", "alphaMode": `"OPAQUE"`, "doubleSided": "false", "metallicFactor": "1", "roughnessFactor": "1",
	"baseColorFactor": "[1,1,1,1]", "emissiveFactor": "[0,0,0]", "texCoord": "0", "mode": "4", "interpolation": `"LINEAR"`,
	"rotation": "[0,0,0,1]", "scale": "[1,1,1]", "translation": "[0,0,0]", "matrix": "[1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1]",
	"wrapS": "10497", "wrapT": "10497", "name": `""`, "normalized": "false", "generator": "",
}

func dropDefaults(key string, v interface{}) interface{} {
	switch v := v.(type) {
	case jm:
		for k, x := range v {
			if k == "extras" {
				continue
			}
			x = dropDefaults(k, x)
			v[k] = x
			if def, ok := gltfDefaults[k]; ok {
				b, _ := json.Marshal(x)
				if string(b) == def || (k == "scale" && string(b) == "1") {
					delete(v, k)
					continue
				}
			}
			if k == "strength" && x == 1.0 {
				delete(v, k)
				continue
			}
			if m, ok := x.(jm); ok && len(m) == 0 && key != "extensions" {
				delete(v, k)
				continue
			}
			if l, ok := x.(ja); ok && len(l) == 0 {
				delete(v, k)
				continue
			}
			if x == nil {
				delete(v, k)
			}
		}
	case ja:
		for i := range v {
			v[i] = dropDefaults(key, v[i])
		}
	}
	return v
}

// jsonDiff compares two documents; numbers as single precision floats.
func jsonDiff(path string, a, b interface{}) []string { return jsonDiffTol(path, a, b, 0) }

// jsonDiffTol allows numbers to differ by tol (relative, but at least absolute).
func jsonDiffTol(path string, a, b interface{}, tol float64) (out []string) {
	switch x := a.(type) {
	case jm:
		y, ok := b.(jm)
		if !ok {
			return []string{fmt.Sprintf("%s: %.80v became %.80v", path, a, b)}
		}
		for k := range x {
			if _, ok := y[k]; !ok {
				out = append(out, fmt.Sprintf("%s.%s: %.80v was lost", path, k, x[k]))
			} else {
				out = append(out, jsonDiffTol(path+"."+k, x[k], y[k], tol)...)
			}
		}
		for k := range y {
			if _, ok := x[k]; !ok {
				out = append(out, fmt.Sprintf("%s.%s: %.80v appeared", path, k, y[k]))
			}
		}
	case ja:
		y, ok := b.(ja)
		if !ok || len(x) != len(y) {
			return []string{fmt.Sprintf("%s: %.80v became %.80v", path, a, b)}
		}
		for i := range x {
			out = append(out, jsonDiffTol(fmt.Sprintf("%s[%d]", path, i), x[i], y[i], tol)...)
			if len(out) > 5 {
				break
			}
		}
	case float64:
		y, ok := b.(float64)
		if !ok || float32(x) != float32(y) && !(math.Abs(x-y) <= tol*(1+math.Abs(x))) {
			return []string{fmt.Sprintf("%s: %v became %v", path, a, b)}
		}
	default:
		if a != b {
			return []string{fmt.Sprintf("%s: %.80v became %.80v", path, a, b)}
		}
	}
	return
}

// stripPositions removes everything a scaling may change.
func stripPositions(d jm) {
	each := func(v interface{}, f func(m jm)) {
		l, _ := v.(ja)
		for _, x := range l {
			f(x.(jm))
		}
	}
	strip := func(m jm, k string) {
		if a, ok := m[k].(jm); ok {
			a["data"] = len(a["data"].(ja))
		}
	}
	each(d["nodes"], func(n jm) {
		delete(n, "translation")
		if m, ok := n["matrix"].(ja); ok {
			m[12], m[13], m[14] = 0.0, 0.0, 0.0
		}
		if m, ok := n["matrix"]; ok {
			if b, _ := json.Marshal(m); string(b) == gltfDefaults["matrix"] {
				delete(n, "matrix")
			}
		}
	})
	each(d["meshes"], func(m jm) {
		each(m["primitives"], func(p jm) {
			strip(p["attributes"].(jm), "POSITION")
			each(p["targets"], func(t jm) { strip(t, "POSITION") })
		})
	})
	each(d["skins"], func(s jm) { strip(s, "inverseBindMatrices") })
	each(d["animations"], func(a jm) {
		sm, _ := a["samplers"].(ja)
		each(a["channels"], func(ch jm) {
			if ch["target"].(jm)["path"] == "translation" {
				strip(sm[int(ch["sampler"].(float64))].(jm), "output")
			}
		})
	})
}

// gPose is one evaluation of a document: rest pose with single properties
// replaced.
type gPose struct {
	node    int
	path    string
	value   []float64
	weights map[int][]float64 // by mesh
}

// evalWorld returns the world positions of all vertices of all mesh nodes and
// the largest magnitude met on the way.
func evalWorld(c *C, d *gDoc, p *gPose) (pts []V3, mag float64) {
	nodes := d.Nodes
	if p != nil && p.path != "weights" {
		nodes = append([]gNode(nil), d.Nodes...)
		n := nodes[p.node]
		switch p.path {
		case "translation":
			n.Translation = p.value
		case "rotation":
			n.Rotation = p.value
		case "scale":
			n.Scale = p.value
		}
		nodes[p.node] = n
	}
	tmp := *d
	tmp.Nodes = nodes
	w, _ := tmp.worlds()
	up := func(v V3) {
		if m := v.maxAbs(); m > mag {
			mag = m
		}
	}
	for ni, n := range nodes {
		up(V3{w[ni][12], w[ni][13], w[ni][14]})
		if n.Mesh == nil {
			continue
		}
		mesh := d.Meshes[*n.Mesh]
		wt := mesh.Weights
		if p != nil && p.path == "weights" && p.node == ni {
			wt = p.value
		}
		var jm []M4
		if n.Skin != nil {
			s := d.Skins[*n.Skin]
			var ibm [][]float64
			if s.InverseBindMatrices != nil {
				ibm = d.mustRead(c, *s.InverseBindMatrices)
			}
			for k, j := range s.Joints {
				m := w[j]
				if ibm != nil {
					var b M4
					copy(b[:], ibm[k])
					m = m.mul(b)
					up(V3{m[12], m[13], m[14]})
				}
				jm = append(jm, m)
			}
		}
		for _, pr := range mesh.Primitives {
			pos := d.mustRead(c, pr.Attributes["POSITION"])
			var tg [][][]float64
			for _, t := range pr.Targets {
				if a, ok := t["POSITION"]; ok {
					tg = append(tg, d.mustRead(c, a))
				} else {
					tg = append(tg, nil)
				}
			}
			var js, ws [][]float64
			if jm != nil {
				js, ws = d.mustRead(c, pr.Attributes["JOINTS_0"]), d.mustRead(c, pr.Attributes["WEIGHTS_0"])
			}
			for k := range pos {
				v := V3{pos[k][0], pos[k][1], pos[k][2]}
				for t := range tg {
					if t < len(wt) && tg[t] != nil {
						v = v.add(V3{tg[t][k][0], tg[t][k][1], tg[t][k][2]}.mul(wt[t]))
						if wt[t] != 0 {
							c.Obs("morphed_point")
						}
					}
				}
				if jm != nil {
					var s V3
					for x := range js[k] {
						if ws[k][x] != 0 {
							q := jm[int(js[k][x])].apply(v)
							up(q)
							s = s.add(q.mul(ws[k][x]))
						}
					}
					v = s
					c.Obs("skinned_point")
				} else {
					v = w[ni].apply(v)
				}
				up(v)
				pts = append(pts, v)
			}
		}
	}
	// joints and empty nodes move too
	for ni := range nodes {
		pts = append(pts, V3{w[ni][12], w[ni][13], w[ni][14]})
	}
	return
}

func compareWorlds(c *C, a, b *gDoc, s float64) {
	cmp := func(what string, pa, pb *gPose) {
		x, mag := evalWorld(c, a, pa)
		y, _ := evalWorld(c, b, pb)
		if len(x) != len(y) {
			c.Fatalf("%s: %d points became %d", what, len(x), len(y))
		}
		for i := range x {
			if d := x[i].mul(s).dist(y[i]); d > 1e-4*s*(mag+1e-3) || math.IsNaN(d) {
				c.Fatalf("%s: point %d at %v is at %v after scaling by %v", what, i, x[i], y[i], s)
			}
		}
		c.ObsN("world_point", len(x))
	}
	cmp("rest pose", nil, nil)
	if len(a.Animations) != len(b.Animations) {
		c.Fatalf("%d animations became %d", len(a.Animations), len(b.Animations))
	}
	for ai := range a.Animations {
		for ci, ch := range a.Animations[ai].Channels {
			if ch.Target.Node == nil {
				continue
			}
			sa, sb := a.Animations[ai].Samplers[ch.Sampler], b.Animations[ai].Samplers[b.Animations[ai].Channels[ci].Sampler]
			oa, ob := a.mustRead(c, sa.Output), b.mustRead(c, sb.Output)
			n := len(a.mustRead(c, sa.Input))
			per := len(oa) / n // elements per key
			if len(oa) != len(ob) {
				c.Fatalf("animation %d channel %d: %d samples became %d", ai, ci, len(oa), len(ob))
			}
			get := func(o [][]float64, k int) []float64 {
				first, cnt := k*per, per
				if sa.Interpolation == "CUBICSPLINE" {
					cnt = per / 3
					first += cnt
				}
				var v []float64
				for _, r := range o[first : first+cnt] {
					v = append(v, r...)
				}
				return v
			}
			for k := 0; k < n; k++ {
				cmp(fmt.Sprintf("animation %d channel %d key %d", ai, ci, k),
					&gPose{node: *ch.Target.Node, path: ch.Target.Path, value: get(oa, k)},
					&gPose{node: *ch.Target.Node, path: ch.Target.Path, value: get(ob, k)})
				c.Obs("anim_point")
			}
			if ch.Target.Path == "translation" {
				for k := range oa {
					for x := range oa[k] {
						if math.Abs(oa[k][x]*s-ob[k][x]) > 1e-5*s*(1+math.Abs(oa[k][x])) {
							c.Fatalf("animation %d channel %d sample %d: %v became %v (scale %v)", ai, ci, k, oa[k], ob[k], s)
						}
					}
				}
			}
		}
	}
}
