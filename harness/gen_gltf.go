package main

// Generator of glTF files as other programs write them: multiple buffers,
// interleaved and packed vertex data, all index types, node matrices, skins,
// morph targets, animations, textures in files, buffer views or data URIs,
// extras and unknown extensions. Written without the gltf library.

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
)

type jm = map[string]interface{}
type ja = []interface{}

type gGen struct {
	c     *C
	r     *rand.Rand
	doc   jm
	bufs  []*bin
	views ja
	accs  ja
	files map[string][]byte // extra files (images), relative path (decoded)

	// feature switches
	Sparse, Anim, Skins, Morphs, Cameras, Lines bool
	ExtImages                                   bool
	SharedIBM                                   bool
	Mirror                                      bool
	nodes                                       []jm
	MaxTri                                      int
}

func newGGen(c *C) *gGen {
	g := &gGen{c: c, r: c.R, files: map[string][]byte{}, MaxTri: 12}
	n := 1 + g.r.Intn(3)
	if g.r.Intn(2) == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		g.bufs = append(g.bufs, &bin{})
	}
	return g
}

// view appends data to a buffer, aligned, and returns the view index.
func (g *gGen) view(data []byte, stride, target int) int {
	k := g.r.Intn(len(g.bufs))
	b := g.bufs[k]
	for b.Len()%4 != 0 || (g.r.Intn(5) == 0 && b.Len() < 64) {
		b.u8(0xcc)
	}
	v := jm{"buffer": k, "byteLength": len(data)}
	if b.Len() > 0 || g.r.Intn(2) == 0 {
		v["byteOffset"] = b.Len()
	}
	if stride > 0 {
		v["byteStride"] = stride
	}
	if target != 0 && g.r.Intn(4) > 0 {
		v["target"] = target
	}
	b.Write(data)
	g.views = append(g.views, v)
	return len(g.views) - 1
}

func putComp(b *bin, ct int, v float64) {
	switch ct {
	case 5120, 5121:
		b.u8(int(v) & 255)
	case 5122, 5123:
		b.u16(int(v) & 0xffff)
	case 5125:
		b.u32(int(v))
	case 5126:
		b.f32(float32(v))
	}
}

type gAttr struct {
	typ    string
	ct     int
	norm   bool
	rows   [][]float64
	bounds bool
	target int
}

func (g *gGen) accJSON(a *gAttr, view, off int) int {
	j := jm{"componentType": a.ct, "count": len(a.rows), "type": a.typ}
	if view >= 0 {
		j["bufferView"] = view
		if off > 0 || g.r.Intn(4) == 0 {
			j["byteOffset"] = off
		}
	}
	if a.norm {
		j["normalized"] = true
	}
	if a.bounds {
		n := typeComps[a.typ]
		mn, mx := make([]float64, n), make([]float64, n)
		for i := range mn {
			mn[i], mx[i] = math.Inf(1), math.Inf(-1)
			for _, r := range a.rows {
				v := r[i]
				if a.ct == 5126 {
					v = f32(v)
				}
				mn[i], mx[i] = math.Min(mn[i], v), math.Max(mx[i], v)
			}
		}
		j["min"], j["max"] = mn, mx
	}
	g.accs = append(g.accs, j)
	return len(g.accs) - 1
}

// acc writes one accessor with its own view, sometimes with a byte offset.
func (g *gGen) acc(a *gAttr) int {
	b := &bin{}
	off := 0
	if g.r.Intn(4) == 0 {
		off = 4 * (1 + g.r.Intn(3))
		b.Write(make([]byte, off))
	}
	stride := 0
	sz := compSize[a.ct] * typeComps[a.typ]
	pad := 0
	if a.target == 34962 {
		if sz%4 != 0 {
			pad = 4 - sz%4
			stride = sz + pad
		} else if g.r.Intn(5) == 0 {
			pad = 4 * g.r.Intn(3)
			stride = sz + pad
		}
	}
	for _, r := range a.rows {
		for _, v := range r {
			putComp(b, a.ct, v)
		}
		b.Write(make([]byte, pad))
	}
	return g.accJSON(a, g.view(b.Bytes(), stride, a.target), off)
}

// interleave writes several attributes into one view.
func (g *gGen) interleave(as []*gAttr) []int {
	b := &bin{}
	offs := make([]int, len(as))
	stride := 0
	for i, a := range as {
		offs[i] = stride
		stride += (compSize[a.ct]*typeComps[a.typ] + 3) &^ 3
	}
	base := 0
	if g.r.Intn(4) == 0 {
		base = 4
		b.u32(0x7fc00000)
	}
	for k := range as[0].rows {
		for _, a := range as {
			st := b.Len()
			for _, v := range a.rows[k] {
				putComp(b, a.ct, v)
			}
			for (b.Len()-st)%4 != 0 {
				b.u8(0)
			}
		}
	}
	v := g.view(b.Bytes(), stride, 34962)
	out := make([]int, len(as))
	for i, a := range as {
		out[i] = g.accJSON(a, v, base+offs[i])
	}
	return out
}

func (g *gGen) v3(s float64) []float64 {
	return []float64{f32(g.r.NormFloat64() * s), f32(g.r.NormFloat64() * s), f32(g.r.NormFloat64() * s)}
}

func (g *gGen) extras(j jm) {
	if g.r.Intn(8) == 0 {
		j["extras"] = jm{"note": rname(g.r, nameAlphabet, 3), "list": ja{1.5, "x", nil, true}}
	}
	if g.r.Intn(10) == 0 {
		j["extensions"] = jm{"ACME_thing": jm{"value": g.r.Intn(9), "deep": jm{"a": ja{1.0, 2.0}}}}
		g.use("ACME_thing")
	}
}

func (g *gGen) use(ext string) {
	l, _ := g.doc["extensionsUsed"].(ja)
	for _, e := range l {
		if e == ext {
			return
		}
	}
	g.doc["extensionsUsed"] = append(l, ext)
}

func (g *gGen) build(nNodes, nMeshes, nMats int) {
	r := g.r
	g.doc = jm{"asset": jm{"version": "2.0", "generator": "other program"}}
	nTex := r.Intn(4)
	if nTex > 0 {
		var images, textures, samplers ja
		nImg := 1 + r.Intn(nTex)
		for i := 0; i < nImg; i++ {
			images = append(images, g.image(i))
		}
		if r.Intn(2) == 0 {
			samplers = ja{jm{"magFilter": 9729, "wrapS": 33071}, jm{"minFilter": 9987}}
			g.doc["samplers"] = samplers
		}
		for i := 0; i < nTex; i++ {
			t := jm{"source": r.Intn(nImg)}
			if samplers != nil && r.Intn(2) == 0 {
				t["sampler"] = r.Intn(2)
			}
			textures = append(textures, t)
		}
		g.doc["images"], g.doc["textures"] = images, textures
	}
	var mats ja
	for i := 0; i < nMats; i++ {
		mats = append(mats, g.material(i, nTex))
	}
	if nMats > 0 {
		g.doc["materials"] = mats
	}

	// node tree: nodes in random order, forest
	order := r.Perm(nNodes)
	parent := make([]int, nNodes)
	used := map[string]bool{}
	for i := 0; i < nNodes; i++ {
		g.nodes = append(g.nodes, jm{"name": uniqueName(r, nameAlphabet, used)})
	}
	var roots ja
	for k, i := range order {
		parent[i] = -1
		if k > 0 && r.Intn(4) > 0 {
			parent[i] = order[r.Intn(k)]
			p := g.nodes[parent[i]]
			l, _ := p["children"].(ja)
			p["children"] = append(l, i)
		} else {
			roots = append(roots, i)
		}
		n := g.nodes[i]
		switch r.Intn(5) {
		case 0:
		case 1:
			q := rquat(r)
			m := mTRS(rv3(r, 2), q, V3{f32(1 + r.Float64()), f32(1 + r.Float64()), f32(1 + r.Float64())})
			var mm ja
			for _, v := range m {
				mm = append(mm, f32(v))
			}
			n["matrix"] = mm
		default:
			if r.Intn(4) > 0 {
				n["translation"] = g.v3(2)
			}
			if r.Intn(2) == 0 {
				q := rquat(r).unit()
				n["rotation"] = []float64{f32(q[0]), f32(q[1]), f32(q[2]), f32(q[3])}
			}
			if r.Intn(3) == 0 {
				s := f32(0.5 + r.Float64())
				n["scale"] = []float64{s, s, s}
				if g.Mirror {
					n["scale"] = []float64{-s, s, f32(s * 1.25)}
				}
			}
		}
		g.extras(n)
	}
	g.doc["scenes"] = ja{jm{"nodes": roots, "name": rname(r, nameAlphabet, 2)}}
	g.doc["scene"] = 0

	// skins
	nSkin := 0
	if g.Skins {
		nSkin = r.Intn(3)
	}
	var skins ja
	sharedIBM := -1
	joints := 1 + r.Intn(nNodes)
	for i := 0; i < nSkin; i++ {
		s := jm{}
		var jl ja
		for _, k := range r.Perm(nNodes)[:joints] {
			jl = append(jl, k)
		}
		s["joints"] = jl
		if r.Intn(5) > 0 {
			if sharedIBM < 0 || !g.SharedIBM || r.Intn(2) == 0 {
				a := &gAttr{typ: "MAT4", ct: 5126}
				for k := 0; k < joints; k++ {
					m := mTRS(rv3(r, 2), rquat(r), V3{1, 1, 1})
					if r.Intn(3) == 0 {
						m = mTRS(rv3(r, 2), rquat(r), V3{2, 0.5, 1.5})
					}
					row := make([]float64, 16)
					for x := range row {
						row[x] = f32(m[x])
					}
					row[3], row[7], row[11], row[15] = 0, 0, 0, 1
					a.rows = append(a.rows, row)
				}
				sharedIBM = g.acc(a)
			} else {
				g.c.Obs("shared_ibm")
			}
			s["inverseBindMatrices"] = sharedIBM
		}
		if r.Intn(2) == 0 {
			s["skeleton"] = roots[r.Intn(len(roots))]
		}
		skins = append(skins, s)
	}
	if nSkin > 0 {
		g.doc["skins"] = skins
	}

	// meshes
	var meshes ja
	skinned := make([]bool, nMeshes)
	targets := make([]int, nMeshes)
	usedM := map[string]bool{}
	for i := 0; i < nMeshes; i++ {
		skinned[i] = nSkin > 0 && r.Intn(2) == 0
		if g.Morphs && r.Intn(2) == 0 {
			targets[i] = 1 + r.Intn(3)
		}
		meshes = append(meshes, g.mesh(uniqueName(r, nameAlphabet, usedM), nMats, joints, skinned[i], targets[i]))
	}
	if nMeshes > 0 {
		g.doc["meshes"] = meshes
	}
	var morphNodes []int
	for _, i := range r.Perm(nNodes) {
		if nMeshes == 0 || r.Intn(2) == 0 {
			if g.Cameras && r.Intn(4) == 0 {
				g.doc["cameras"] = ja{jm{"type": "perspective", "perspective": jm{"yfov": 0.5, "znear": 0.25}}}
				g.nodes[i]["camera"] = 0
			}
			continue
		}
		m := r.Intn(nMeshes)
		g.nodes[i]["mesh"] = m
		if skinned[m] {
			g.nodes[i]["skin"] = r.Intn(nSkin)
		}
		if targets[m] > 0 {
			morphNodes = append(morphNodes, i)
		}
	}
	g.doc["nodes"] = g.nodes

	// animations
	if g.Anim {
		var anims ja
		for i := r.Intn(3); i > 0; i-- {
			if a := g.animation(nNodes, morphNodes, targets); a != nil {
				anims = append(anims, a)
			}
		}
		if len(anims) > 0 {
			g.doc["animations"] = anims
		}
	}
	if r.Intn(4) == 0 {
		g.doc["extras"] = jm{"k": "v"}
	}
	if len(g.views) > 0 {
		g.doc["bufferViews"] = g.views
	}
	if len(g.accs) > 0 {
		g.doc["accessors"] = g.accs
	}
}

func (g *gGen) material(i, nTex int) jm {
	r := g.r
	m := jm{"name": fmt.Sprintf("mat%d%s", i, rname(r, nameAlphabet, 2))}
	col := func(n int) []float64 {
		v := make([]float64, n)
		for k := range v {
			v[k] = f32(float64(rweight(r)))
		}
		return v
	}
	tex := func() jm {
		t := jm{"index": r.Intn(nTex)}
		if r.Intn(4) == 0 {
			t["extensions"] = jm{"KHR_texture_transform": jm{"scale": ja{2.0, 3.0}, "offset": ja{0.5, 0.0}}}
			g.use("KHR_texture_transform")
		}
		return t
	}
	if r.Intn(5) > 0 {
		p := jm{}
		if r.Intn(3) > 0 {
			p["baseColorFactor"] = col(4)
		}
		if r.Intn(2) == 0 {
			p["metallicFactor"] = col(1)[0]
		}
		if r.Intn(2) == 0 {
			p["roughnessFactor"] = col(1)[0]
		}
		if nTex > 0 && r.Intn(2) == 0 {
			p["baseColorTexture"] = tex()
		}
		if nTex > 0 && r.Intn(4) == 0 {
			p["metallicRoughnessTexture"] = tex()
		}
		m["pbrMetallicRoughness"] = p
	}
	if nTex > 0 && r.Intn(4) == 0 {
		t := tex()
		t["scale"] = 0.5
		m["normalTexture"] = t
	}
	if nTex > 0 && r.Intn(4) == 0 {
		t := tex()
		t["strength"] = 0.25
		m["occlusionTexture"] = t
	}
	if nTex > 0 && r.Intn(4) == 0 {
		m["emissiveTexture"] = tex()
	}
	if r.Intn(3) == 0 {
		m["emissiveFactor"] = col(3)
	}
	switch r.Intn(5) {
	case 0:
		m["alphaMode"] = "BLEND"
	case 1:
		m["alphaMode"] = "MASK"
		if r.Intn(2) == 0 {
			m["alphaCutoff"] = f32(float64(rweight(r)))
		}
	case 2:
		m["alphaMode"] = "OPAQUE"
	}
	if r.Intn(2) == 0 {
		m["doubleSided"] = r.Intn(2) == 0
	}
	g.extras(m)
	if r.Intn(6) == 0 {
		e, _ := m["extensions"].(jm)
		if e == nil {
			e = jm{}
		}
		e["KHR_materials_unlit"] = jm{}
		m["extensions"] = e
		g.use("KHR_materials_unlit")
	}
	return m
}

func (g *gGen) image(i int) jm {
	r := g.r
	ext := []string{"png", "jpg"}[r.Intn(2)]
	data := make([]byte, 20+r.Intn(60))
	r.Read(data)
	if ext == "png" {
		copy(data, "\x89PNG\r\n\x1a\n")
	} else {
		copy(data, "\xff\xd8\xff")
	}
	mime := map[string]string{"png": "image/png", "jpg": "image/jpeg"}[ext]
	im := jm{}
	if r.Intn(2) == 0 {
		im["name"] = rname(r, nameAlphabet, 3)
	}
	kind := r.Intn(3)
	if kind == 0 && !g.ExtImages {
		kind = 1
	}
	switch kind {
	case 0:
		name := fmt.Sprintf("img%d.%s", i, []string{ext, map[string]string{"png": "PNG", "jpg": "JPEG"}[ext]}[r.Intn(2)])
		switch r.Intn(5) {
		case 4:
			name = "a+b&c=" + name
			g.c.Obs("image_plus")
		case 0:
			name = "tex dir/" + name
		case 1:
			name = "テクスチャ" + name
		case 2:
			name = "sub/" + name
		}
		g.files[name] = data
		u := name
		if r.Intn(2) == 0 {
			u = (&url.URL{Path: name}).EscapedPath()
		}
		im["uri"] = u
		if r.Intn(2) == 0 {
			im["mimeType"] = mime
		}
		g.c.Obs("image_file")
	case 1:
		im["bufferView"] = g.view(data, 0, 0)
		im["mimeType"] = mime
		g.c.Obs("image_view")
	case 2:
		im["uri"] = "data:" + mime + ";base64," + base64.StdEncoding.EncodeToString(data)
		g.c.Obs("image_data_uri")
	}
	return im
}

func (g *gGen) mesh(name string, nMats, joints int, skinned bool, nTargets int) jm {
	r := g.r
	m := jm{"name": name}
	var prims ja
	np := 1 + r.Intn(3)
	for p := 0; p < np; p++ {
		nv := 3 + r.Intn(10)
		pos := &gAttr{typ: "VEC3", ct: 5126, bounds: true, target: 34962}
		nor := &gAttr{typ: "VEC3", ct: 5126, target: 34962}
		uv := &gAttr{typ: "VEC2", ct: 5126, target: 34962}
		if k := r.Intn(3); k > 0 {
			uv.ct, uv.norm = []int{5121, 5123}[k-1], true
		}
		col := &gAttr{typ: "VEC4", ct: 5121, norm: true, target: 34962}
		jt := &gAttr{typ: "VEC4", ct: []int{5121, 5123}[r.Intn(2)], target: 34962}
		wt := &gAttr{typ: "VEC4", ct: 5126, target: 34962}
		for k := 0; k < nv; k++ {
			pos.rows = append(pos.rows, g.v3(3))
			n := rv3(r, 1).unit()
			nor.rows = append(nor.rows, []float64{f32(n[0]), f32(n[1]), f32(n[2])})
			switch uv.ct {
			case 5126:
				uv.rows = append(uv.rows, []float64{f32(r.NormFloat64()), f32(r.NormFloat64())})
			case 5121:
				uv.rows = append(uv.rows, []float64{float64(r.Intn(256)), float64(r.Intn(256))})
			default:
				uv.rows = append(uv.rows, []float64{float64(r.Intn(65536)), float64(r.Intn(65536))})
			}
			col.rows = append(col.rows, []float64{float64(r.Intn(256)), 1, 2, 255})
			js := make([]float64, 4)
			ws := make([]float64, 4)
			js[0], ws[0] = float64(r.Intn(joints)), 1
			if joints > 1 && r.Intn(2) == 0 {
				js[1] = float64((int(js[0]) + 1) % joints)
				ws[0], ws[1] = 0.75, 0.25
			}
			jt.rows, wt.rows = append(jt.rows, js), append(wt.rows, ws)
		}
		attrs := []string{"POSITION"}
		list := []*gAttr{pos}
		add := func(n string, a *gAttr) { attrs, list = append(attrs, n), append(list, a) }
		if r.Intn(3) > 0 {
			add("NORMAL", nor)
		}
		if r.Intn(3) > 0 {
			add("TEXCOORD_0", uv)
		}
		if r.Intn(5) == 0 {
			add("COLOR_0", col)
		}
		if skinned {
			add("JOINTS_0", jt)
			add("WEIGHTS_0", wt)
		}
		am := jm{}
		if r.Intn(3) == 0 {
			for i, id := range g.interleave(list) {
				am[attrs[i]] = id
			}
			g.c.Obs("interleaved")
		} else {
			for i, a := range list {
				am[attrs[i]] = g.acc(a)
			}
		}
		pr := jm{"attributes": am}
		if r.Intn(6) > 0 {
			ix := &gAttr{typ: "SCALAR", ct: []int{5121, 5123, 5125}[r.Intn(3)], target: 34963}
			for t := 1 + r.Intn(g.MaxTri); t > 0; t-- {
				p := r.Perm(nv)
				for k := 0; k < 3; k++ {
					ix.rows = append(ix.rows, []float64{float64(p[k])})
				}
			}
			pr["indices"] = g.acc(ix)
		} else if nv%3 != 0 {
			ix := &gAttr{typ: "SCALAR", ct: 5123, target: 34963, rows: [][]float64{{0}, {1}, {2}}}
			pr["indices"] = g.acc(ix)
		} else {
			g.c.Obs("no_indices")
		}
		if nMats > 0 && r.Intn(5) > 0 {
			pr["material"] = r.Intn(nMats)
		}
		if r.Intn(3) == 0 {
			pr["mode"] = 4
		}
		if g.Lines && r.Intn(3) == 0 {
			pr["mode"] = []int{0, 1, 2, 3, 5, 5, 6, 6}[r.Intn(8)]
			ix := &gAttr{typ: "SCALAR", ct: []int{5121, 5123, 5125}[r.Intn(3)], target: 34963}
			n := 3 + r.Intn(9)
			if pr["mode"] == 1 {
				n = 2 + 2*r.Intn(5)
			}
			for k := 0; k < n; k++ {
				ix.rows = append(ix.rows, []float64{float64(r.Intn(nv))})
			}
			pr["indices"] = g.acc(ix)
			g.c.Obs(fmt.Sprintf("mode_%d", pr["mode"]))
		}
		if nTargets > 0 {
			var ts ja
			for t := 0; t < nTargets; t++ {
				d := &gAttr{typ: "VEC3", ct: 5126, bounds: true, target: 34962}
				for k := 0; k < nv; k++ {
					if r.Intn(2) == 0 {
						d.rows = append(d.rows, []float64{0, 0, 0})
					} else {
						d.rows = append(d.rows, g.v3(1))
					}
				}
				tm := jm{"POSITION": g.acc(d)}
				ts = append(ts, tm)
			}
			pr["targets"] = ts
		}
		g.extras(pr)
		prims = append(prims, pr)
	}
	m["primitives"] = prims
	if nTargets > 0 {
		var names ja
		w := make([]float64, nTargets)
		for t := 0; t < nTargets; t++ {
			names = append(names, fmt.Sprintf("%s_t%d", name, t))
			w[t] = []float64{0, 0, 0.5, 1}[r.Intn(4)]
		}
		m["weights"] = w
		m["extras"] = jm{"targetNames": names}
	}
	return m
}

func (g *gGen) animation(nNodes int, morphNodes []int, targets []int) jm {
	r := g.r
	var chs, sms ja
	used := map[string]bool{}
	for k := 1 + r.Intn(5); k > 0; k-- {
		path := []string{"translation", "translation", "rotation", "scale", "weights"}[r.Intn(5)]
		node := r.Intn(nNodes)
		if path == "weights" {
			if len(morphNodes) == 0 {
				continue
			}
			node = morphNodes[r.Intn(len(morphNodes))]
		} else if _, ok := g.nodes[node]["matrix"]; ok {
			continue
		}
		if used[fmt.Sprint(node, path)] {
			continue
		}
		used[fmt.Sprint(node, path)] = true
		in := &gAttr{typ: "SCALAR", ct: 5126, bounds: true}
		t := f32(r.Float64())
		n := 1 + r.Intn(4)
		for i := 0; i < n; i++ {
			in.rows = append(in.rows, []float64{t})
			t = f32(t + 0.1 + r.Float64())
		}
		s := jm{"input": g.acc(in)}
		mul := 1
		switch r.Intn(4) {
		case 0:
			s["interpolation"] = "STEP"
		case 1:
			s["interpolation"] = "LINEAR"
		case 2:
			if n >= 2 {
				s["interpolation"] = "CUBICSPLINE"
				mul = 3
			}
		}
		out := &gAttr{ct: 5126}
		for i := 0; i < n*mul; i++ {
			switch path {
			case "translation":
				out.typ = "VEC3"
				out.rows = append(out.rows, g.v3(2))
			case "scale":
				out.typ = "VEC3"
				out.rows = append(out.rows, []float64{1.5, 1.5, 1.5})
			case "rotation":
				out.typ = "VEC4"
				q := rquat(r).unit()
				out.rows = append(out.rows, []float64{f32(q[0]), f32(q[1]), f32(q[2]), f32(q[3])})
			case "weights":
				out.typ = "SCALAR"
				for t := 0; t < targets[g.nodes[node]["mesh"].(int)]; t++ {
					out.rows = append(out.rows, []float64{f32(r.Float64())})
				}
			}
		}
		s["output"] = g.acc(out)
		sms = append(sms, s)
		chs = append(chs, jm{"sampler": len(sms) - 1, "target": jm{"node": node, "path": path}})
		g.c.Obs("anim_" + path)
	}
	if len(chs) == 0 {
		return nil
	}
	return jm{"name": rname(r, nameAlphabet, 3), "channels": chs, "samplers": sms}
}

// write stores the document as base.gltf or base.glb in dir and returns the
// path of the main file.
func (g *gGen) write(dir, base string, glb bool) string {
	for n, d := range g.files {
		p := filepath.Join(dir, n)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, d, 0644))
	}
	var bl ja
	var chunk []byte
	last := len(g.bufs)
	for last > 0 && g.bufs[last-1].Len() == 0 {
		last--
	}
	for i, b := range g.bufs[:last] {
		if b.Len() == 0 {
			b.u32(0)
		}
		j := jm{"byteLength": b.Len()}
		switch {
		case glb && i == 0:
			chunk = b.Bytes()
		case g.r.Intn(3) == 0:
			j["uri"] = "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(b.Bytes())
			g.c.Obs("buffer_data_uri")
		default:
			n := fmt.Sprintf("%s_%d.bin", base, i)
			u := n
			if g.r.Intn(3) == 0 {
				n = fmt.Sprintf([]string{"データ %d.bin", "a+b %d.bin"}[g.r.Intn(2)], i)
				u = (&url.URL{Path: n}).EscapedPath()
				g.c.Obs("buffer_escaped_uri")
			}
			must(os.WriteFile(filepath.Join(dir, n), b.Bytes(), 0644))
			j["uri"] = u
		}
		bl = append(bl, j)
	}
	if len(bl) > 1 {
		g.c.Obs("several_buffers")
	}
	if len(bl) > 0 {
		g.doc["buffers"] = bl
	}
	js, err := json.Marshal(g.doc)
	must(err)
	p := filepath.Join(dir, base+".gltf")
	if glb {
		p = filepath.Join(dir, base+".glb")
		js = encodeGLB(js, chunk)
	}
	must(os.WriteFile(p, js, 0644))
	return p
}

func encodeGLB(js, chunk []byte) []byte {
	for len(js)%4 != 0 {
		js = append(js, ' ')
	}
	b := &bin{}
	b.WriteString("glTF")
	b.u32(2)
	n := 20 + len(js)
	pad := (4 - len(chunk)%4) % 4
	if chunk != nil {
		n += 8 + len(chunk) + pad
	}
	b.u32(n)
	b.u32(len(js))
	b.WriteString("JSON")
	b.Write(js)
	if chunk != nil {
		b.u32(len(chunk) + pad)
		b.WriteString("BIN\x00")
		b.Write(chunk)
		b.Write(make([]byte, pad))
	}
	return b.Bytes()
}

func unescape(s string) string {
	if u, err := url.PathUnescape(s); err == nil {
		return u
	}
	return s
}
