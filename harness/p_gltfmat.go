package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"image/gif"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

func fnum(v interface{}) float64 {
	switch v := v.(type) {
	case float32:
		return float64(v)
	case float64:
		return v
	}
	return 0
}

func gltfMaterialCase(c *C) {
	r := c.R
	d := mqo.NewDocument()
	o := mqo.NewObject("o")
	d.Objects = append(d.Objects, o)
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		m := &mqo.Material{Name: fmt.Sprintf("mat%d%s", i, rname(r, nameAlphabet, 2)), Color: geom.Vector4{X: r.Float32(), Y: r.Float32(), Z: r.Float32(), W: r.Float32()}, Specular: rweight(r), DoubleSided: r.Intn(2) == 0}
		d.Materials = append(d.Materials, m)
		if r.Intn(5) > 0 { // an unused material is dropped
			f, _ := addPolygon(c, o, 0)
			f.Material = i
			f.UVs = []geom.Vector2{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: 0, Y: 1}}
		}
	}
	dir := filepath.Join(c.Dir(), "textures")
	must(os.MkdirAll(dir, 0755))
	files := decorateMaterials(c, d, dir)
	opt := &converter.MQOToGLTFOption{ForceUnlit: r.Intn(5) == 0}
	switch r.Intn(5) {
	case 0:
		opt.TextureReCompress = true
	case 1:
		opt.TextureBytesThreshold = int64([]int{1, 300, 1000, 1 << 30}[r.Intn(4)])
	}
	if r.Intn(2) == 0 {
		opt.TextureResolutionLimit = []int{4, 16, 50, 4096}[r.Intn(4)]
	}
	if r.Intn(3) == 0 {
		opt.TextureScale = []float32{0.5, 0.25, 1}[r.Intn(3)]
	}
	src := cloneMQO(d)
	g := convertGltf(c, d, opt, dir)
	checkGltf(c, g)
	c.Sig("%v %s", *opt, structSig(src))
	used := map[string]bool{}
	for _, f := range src.Objects[0].Faces {
		used[src.Materials[f.Material].Name] = true
	}
	texOf := map[string]int{}  // file -> texture index
	fileOf := map[int]string{} // texture -> file
	checkTex := func(what, file string, ti *gTexInfo) {
		if file == "" {
			if ti != nil {
				c.Fatalf("%s has a texture, the source none", what)
			}
			return
		}
		f := files[file]
		readable := f.kind != "missing"
		encode := opt.TextureReCompress || (f.kind != "png" && f.kind != "jpg") || opt.TextureBytesThreshold > 0 && int64(len(f.bytes)) > opt.TextureBytesThreshold
		if f.kind == "corrupt" && encode {
			readable = false
		}
		if !readable {
			c.Obs("image_missing")
			if ti != nil {
				c.Fatalf("%s has a texture, its file %q is %s", what, file, f.kind)
			}
			return
		}
		if ti == nil {
			c.Fatalf("%s: texture %q was lost", what, file)
		}
		if k, ok := texOf[file]; ok {
			if k != *ti.Index {
				c.Fatalf("%s: texture %q is stored as %d and as %d", what, file, k, *ti.Index)
			}
			c.Obs("image_shared")
			return
		}
		if other, ok := fileOf[*ti.Index]; ok {
			c.Fatalf("%s: texture %d stands for %q and %q", what, *ti.Index, other, file)
		}
		texOf[file], fileOf[*ti.Index] = *ti.Index, file
		img := g.Images[*g.Textures[*ti.Index].Source]
		if img.BufferView == nil {
			c.Fatalf("%s: image is not embedded", what)
		}
		data, err := g.viewData(*img.BufferView)
		if err != nil {
			c.Fatalf("%v", err)
		}
		mime := "image/png"
		if f.kind == "jpg" {
			mime = "image/jpeg"
		}
		if img.MimeType != mime {
			c.Fatalf("%s: %q has type %q", what, file, img.MimeType)
		}
		if !encode {
			// trailing padding would still be a different file
			if !bytes.Equal(data, f.bytes) {
				c.Fatalf("%s: the bytes of %q changed (%d -> %d)", what, file, len(f.bytes), len(data))
			}
			c.Obs("image_identical")
			return
		}
		dec, format, err := image.Decode(bytes.NewReader(data))
		if err != nil || "image/"+format != mime {
			c.Fatalf("%s: re-encoded %q does not decode as %s: %v", what, file, mime, err)
		}
		w, h := float64(f.w), float64(f.h)
		sc := 1.0
		if opt.TextureScale != 0 {
			sc = float64(opt.TextureScale)
		}
		if L := float64(opt.TextureResolutionLimit); L > 0 && math.Floor(math.Max(w, h)*sc) > L {
			sc = sc * L / math.Floor(math.Max(w, h)*sc)
			c.Obs("image_limited")
		}
		gw, gh := float64(dec.Bounds().Dx()), float64(dec.Bounds().Dy())
		if L := float64(opt.TextureResolutionLimit); L > 0 && (gw > L+1e-9 || gh > L+1e-9) && sc < 1 {
			// the limit may only be exceeded by nothing
			c.Fatalf("%s: %q is %gx%g, the limit %g", what, file, gw, gh, L)
		}
		if math.Abs(gw-math.Max(1, w*sc)) > 1.001 || math.Abs(gh-math.Max(1, h*sc)) > 1.001 {
			c.Fatalf("%s: %q (%gx%g) became %gx%g, want about %gx%g", what, file, w, h, gw, gh, w*sc, h*sc)
		}
		if sc == 1 && mime == "image/png" && f.pixels != nil && (gw != w || gh != h) {
			c.Fatalf("%s: %q (%gx%g) became %gx%g", what, file, w, h, gw, gh)
		}
		if sc == 1 && mime == "image/png" && f.pixels != nil {
			for y := 0; y < f.h; y++ {
				for x := 0; x < f.w; x++ {
					a := color.NRGBAModel.Convert(dec.At(dec.Bounds().Min.X+x, dec.Bounds().Min.Y+y)).(color.NRGBA)
					b := f.pixels.At(x, y).(color.NRGBA)
					if f.kind == "bmp" {
						b.A = 255
					}
					if absd(a.A, b.A) > 1 || (b.A == 255 && (absd(a.R, b.R) > 1 || absd(a.G, b.G) > 1 || absd(a.B, b.B) > 1)) {
						c.Fatalf("%s: pixel %d,%d of %q is %v, want %v", what, x, y, file, a, b)
					}
				}
			}
		}
		if f.patches != nil && gw >= 4 && gh >= 4 && (f.kind != "jpg" || gw >= 16 && gh >= 16) {
			for q, want := range f.patches {
				x, y := int(gw*(0.25+0.5*float64(q%2))), int(gh*(0.25+0.5*float64(q/2)))
				p := color.NRGBAModel.Convert(dec.At(dec.Bounds().Min.X+x, dec.Bounds().Min.Y+y)).(color.NRGBA)
				for k, v := range []uint8{p.R, p.G, p.B} {
					if math.Abs(float64(v)-float64(want[k])) > 64 || p.A < 250 {
						c.Fatalf("%s: %q (%gx%g, now %gx%g): the pixel at %d,%d is %v, this quarter of the image had about %v", what, file, w, h, gw, gh, x, y, p, want)
					}
				}
			}
			c.Obs("image_patches")
		}
		c.Obs("image_reencoded")
	}
	k := 0
	for _, m := range src.Materials {
		if !used[m.Name] {
			continue
		}
		if k >= len(g.Materials) {
			c.Fatalf("material %q was lost", m.Name)
		}
		gm := g.Materials[k]
		k++
		what := fmt.Sprintf("material %q", m.Name)
		if gm.Name != m.Name || gm.DoubleSided != m.DoubleSided || gm.PBR == nil {
			c.Fatalf("%s became %+v", what, gm)
		}
		bc := []float64{1, 1, 1, 1}
		if gm.PBR.BaseColorFactor != nil {
			bc = gm.PBR.BaseColorFactor
		}
		for j, x := range []float32{m.Color.X, m.Color.Y, m.Color.Z, m.Color.W} {
			if float32(bc[j]) != x {
				c.Fatalf("%s has color %v, want %v", what, bc, m.Color)
			}
		}
		isGltf := m.Ex2 != nil && m.Ex2.ShaderName == "glTF"
		metal, rough := float64(m.Specular), 0.4
		mode := "OPAQUE"
		unlit := opt.ForceUnlit || m.Ex2 == nil && m.Shader == 1
		var cut *float64
		if isGltf {
			metal, rough = fnum(m.Ex2.ShaderParams["Metallic"]), fnum(m.Ex2.ShaderParams["Roughness"])
			am, _ := m.Ex2.ShaderParams["AlphaMode"].(int)
			switch am {
			case 2:
				mode = "MASK"
				x := 0.5
				if v, ok := m.Ex2.ShaderParams["AlphaCutOff"]; ok {
					x = fnum(v)
				}
				cut = &x
				c.Obs("alpha_mask")
			case 3:
				mode = "BLEND"
				c.Obs("alpha_blend")
			}
			b, _ := m.Ex2.ShaderParams["Extensions.Unlit"].(bool)
			unlit = unlit || b || metal == 0 && rough == 1
		} else if m.Color.W < 0.99 {
			mode = "BLEND"
			c.Obs("alpha_blend")
		}
		gmode := gm.AlphaMode
		if gmode == "" {
			gmode = "OPAQUE"
		}
		if gmode != mode {
			c.Fatalf("%s has alpha mode %s, want %s", what, gmode, mode)
		}
		if cut != nil {
			gc := 0.5
			if gm.AlphaCutoff != nil {
				gc = *gm.AlphaCutoff
			}
			if !near(gc, *cut, 1e-6) {
				c.Fatalf("%s has alpha cutoff %v, want %v", what, gc, *cut)
			}
		}
		gme, gr := 1.0, 1.0
		if gm.PBR.MetallicFactor != nil {
			gme = *gm.PBR.MetallicFactor
		}
		if gm.PBR.RoughnessFactor != nil {
			gr = *gm.PBR.RoughnessFactor
		}
		if !near(gme, metal, 1e-6) || !near(gr, rough, 1e-6) {
			c.Fatalf("%s has metallic %v roughness %v, want %v %v", what, gme, gr, metal, rough)
		}
		em := V3{}
		if m.EmissionColor != nil {
			em = v3(m.EmissionColor)
		} else if m.Emission > 0 {
			e := float64(m.Emission)
			em = V3{e, e, e}
		}
		if em.maxAbs() > 1 {
			em = em.mul(1 / em.maxAbs())
		}
		ge := V3{}
		copy(ge[:], gm.EmissiveFactor)
		if !(ge.dist(em) <= 1e-5) {
			c.Fatalf("%s has emission %v, want %v", what, ge, em)
		}
		if em.maxAbs() > 0 {
			c.Obs("emission")
		}
		wantExt := map[string]bool{}
		if unlit {
			wantExt["KHR_materials_unlit"] = true
			c.Obs("unlit")
		}
		checkTex(what+" color", m.Texture, gm.PBR.BaseColorTexture)
		checkTex(what+" bump", m.BumpTexture, gm.NormalTexture)
		if isGltf {
			for _, x := range extKeys {
				if b, _ := m.Ex2.ShaderParams["Extensions."+x.flag].(bool); !b {
					continue
				}
				wantExt[x.ext] = true
				var got map[string]json.RawMessage
				if gm.Extensions[x.ext] == nil || json.Unmarshal(gm.Extensions[x.ext], &got) != nil {
					c.Fatalf("%s lacks extension %s", what, x.ext)
				}
				c.Obs("extension")
				nprops := 0
				for _, f := range extFloats[x.ext] {
					v := fnum(m.Ex2.ShaderParams["Extensions."+f[0]])
					var gv float64
					json.Unmarshal(got[f[1]], &gv)
					if !near(gv, v, 1e-6) {
						c.Fatalf("%s: %s is %v, want %v", what, f[1], gv, v)
					}
					if got[f[1]] != nil {
						nprops++
					}
				}
				for _, f := range extColors[x.ext] {
					v, ok := m.Ex2.ShaderParams["Extensions."+f[0]].([]float32)
					var gv []float64
					json.Unmarshal(got[f[1]], &gv)
					if ok != (gv != nil) {
						c.Fatalf("%s: %s is %v, want %v", what, f[1], gv, v)
					}
					if ok {
						nprops++
						if len(gv) != 3 || float32(gv[0]) != v[0] || float32(gv[1]) != v[1] || float32(gv[2]) != v[2] {
							c.Fatalf("%s: %s is %v, want %v", what, f[1], gv, v)
						}
					}
				}
				for _, f := range extTextures[x.ext] {
					var ti *gTexInfo
					if got[f[1]] != nil {
						ti = &gTexInfo{}
						json.Unmarshal(got[f[1]], ti)
						nprops++
					}
					checkTex(what+" "+f[1], m.Ex2.ShaderMapping[f[0]], ti)
				}
				if nprops != len(got) {
					c.Fatalf("%s: extension %s has unexpected content %s", what, x.ext, gm.Extensions[x.ext])
				}
			}
		}
		for e := range gm.Extensions {
			if !wantExt[e] {
				c.Fatalf("%s has the extension %s", what, e)
			}
		}
		for e := range wantExt {
			if gm.Extensions[e] == nil {
				c.Fatalf("%s lacks the extension %s", what, e)
			}
		}
		c.Obs("material_ok")
	}
	if k != len(g.Materials) {
		c.Fatalf("%d materials, want %d", len(g.Materials), k)
	}
	if len(g.Images) != len(texOf) || len(g.Textures) != len(texOf) {
		c.Fatalf("%d images and %d textures for %d files", len(g.Images), len(g.Textures), len(texOf))
	}
}

func absd(a, b uint8) int {
	if a > b {
		return int(a - b)
	}
	return int(b - a)
}

// gltfAlphaCase: DetectAlphaTexture blends a material exactly when the part of
// the texture its faces show is transparent.
func gltfAlphaCase(c *C) {
	r := c.R
	dir := c.Dir()
	type tex struct {
		name        string
		w, h        int // a grid of 4 x 4 cells
		bx, by      int // the transparent cell
		transparent bool
		kind        string
	}
	var texs []*tex
	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		kind := []string{"png", "png", "png16", "palette", "gif", "tga"}[r.Intn(6)]
		ext := map[string]string{"gif": ".gif", "tga": ".tga"}[kind]
		if ext == "" {
			ext = ".png"
		}
		if r.Intn(4) == 0 {
			ext = strings.ToUpper(ext)
		}
		t := &tex{name: fmt.Sprintf("a%d%s", i, ext), w: 16 * (1 + r.Intn(3)), h: 16 * (1 + r.Intn(3)), bx: r.Intn(4), by: r.Intn(4), transparent: r.Intn(4) > 0}
		img := image.NewNRGBA(image.Rect(0, 0, t.w, t.h))
		for i := range img.Pix {
			img.Pix[i] = 255
		}
		one := uint8(r.Intn(250)) // alpha of the only transparent entry of a palette
		if kind == "gif" {
			one = 0
		}
		if t.transparent {
			for y := t.by * t.h / 4; y < (t.by+1)*t.h/4; y++ {
				for x := t.bx * t.w / 4; x < (t.bx+1)*t.w/4; x++ {
					a := uint8(r.Intn(250))
					if kind == "palette" || kind == "gif" {
						a = one
					}
					img.SetNRGBA(x, y, color.NRGBA{10, 20, 30, a})
				}
			}
		}
		var b bytes.Buffer
		switch kind {
		case "png":
			must(png.Encode(&b, img))
		case "png16":
			m := image.NewNRGBA64(img.Bounds())
			draw.Draw(m, m.Bounds(), img, image.Point{}, draw.Src)
			if m.Opaque() { // keep the alpha channel in the file
				m.SetNRGBA64(t.w-1, t.h-1, color.NRGBA64{1, 2, 3, 0xffff})
			}
			must(png.Encode(&b, m))
		case "palette", "gif":
			m := image.NewPaletted(img.Bounds(), color.Palette{color.NRGBA{255, 255, 255, 255}, color.NRGBA{10, 20, 30, one}, color.NRGBA{0, 0, 0, 255}})
			for y := 0; y < t.h; y++ {
				for x := 0; x < t.w; x++ {
					if img.NRGBAAt(x, y).A < 255 {
						m.SetColorIndex(x, y, 1)
					}
				}
			}
			if kind == "gif" {
				if !t.transparent {
					m.Palette[1] = color.NRGBA{10, 20, 30, 255}
				}
				must(gif.EncodeAll(&b, &gif.GIF{Image: []*image.Paletted{m}, Delay: []int{0}}))
			} else {
				must(png.Encode(&b, m))
			}
		case "tga":
			b.Write(encTGA(img))
		}
		must(os.WriteFile(filepath.Join(dir, t.name), b.Bytes(), 0644))
		t.kind = kind
		texs = append(texs, t)
	}
	d := mqo.NewDocument()
	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		o := mqo.NewObject(fmt.Sprintf("o%d", i))
		d.Objects = append(d.Objects, o)
	}
	type shown struct {
		t      *tex
		lo, hi [2]float64
	}
	var list []*shown
	type job struct{ mat, k int }
	var jobs []job
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		s := &shown{texs[r.Intn(len(texs))], [2]float64{1, 1}, [2]float64{0, 0}}
		d.Materials = append(d.Materials, &mqo.Material{Name: fmt.Sprintf("m%d", i), Color: geom.Vector4{X: 1, Y: 1, Z: 1, W: 1}, Texture: s.t.name})
		list = append(list, s)
		if i+1 < n && r.Intn(3) == 0 {
			continue // unused
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			jobs = append(jobs, job{i, k})
		}
	}
	r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	off := [2]float64{float64(r.Intn(3) - 1), float64(r.Intn(3) - 1)}
	for _, j := range jobs {
		s := list[j.mat]
		o := d.Objects[r.Intn(len(d.Objects))]
		f, _ := addPolygon(c, o, 0)
		f.Material = j.mat
		x, y := r.Intn(4), r.Intn(4)
		x0, y0 := (float64(x)+0.125)/4, (float64(y)+0.125)/4
		x1, y1 := (float64(x)+0.875)/4, (float64(y)+0.875)/4
		for _, p := range [][2]float64{{x0, y0}, {x1, y0}, {x0, y1}} {
			f.UVs = append(f.UVs, geom.Vector2{X: float32(p[0] + off[0]), Y: float32(p[1] + off[1])})
			for j := 0; j < 2; j++ {
				s.lo[j], s.hi[j] = math.Min(s.lo[j], p[j]), math.Max(s.hi[j], p[j])
			}
		}
		// the third corner of the box
		f2 := &mqo.Face{Verts: append([]int{}, f.Verts...), UVs: append([]geom.Vector2{}, f.UVs...), Material: j.mat}
		f2.UVs[0] = geom.Vector2{X: float32(x1 + off[0]), Y: float32(y1 + off[1])}
		s.hi[0], s.hi[1] = math.Max(s.hi[0], x1), math.Max(s.hi[1], y1)
		o.Faces = append(o.Faces, f2)
	}
	detect := r.Intn(4) > 0
	g := convertGltf(c, d, &converter.MQOToGLTFOption{DetectAlphaTexture: detect}, dir)
	checkGltf(c, g)
	k := 0
	for i, s := range list {
		if s.lo[0] > s.hi[0] {
			continue
		}
		t := s.t
		// texels entirely inside the box versus outside it
		inside := t.transparent && float64(t.bx)/4 < s.hi[0] && float64(t.bx+1)/4 > s.lo[0] && float64(t.by)/4 < s.hi[1] && float64(t.by+1)/4 > s.lo[1]
		want := detect && inside
		if k >= len(g.Materials) || g.Materials[k].Name != d.Materials[i].Name {
			c.Fatalf("material %s was lost", d.Materials[i].Name)
		}
		got := g.Materials[k].AlphaMode == "BLEND"
		k++
		if got != want {
			c.Fatalf("%s %dx%d texture with a transparent block in cell %d,%d (%v), faces of material %d show %v..%v (offset %v), detection %v: blend mode %v, want %v", t.name+" ("+t.kind+")", t.w, t.h, t.bx, t.by, t.transparent, i, s.lo, s.hi, off, detect, got, want)
		}
		if want {
			c.Obs("alpha_detected")
			c.Obs("alpha_" + t.kind)
		} else if t.transparent && detect {
			c.Obs("alpha_elsewhere")
		}
	}
	c.Sig("alpha %v %v %v", jobs, off, detect)
}
