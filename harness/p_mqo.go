package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/binzume/modelconv/mqo"
)

func init() {
	register(&Prop{
		ID:   "P05",
		Rule: "seeded documents using every field of the format (scene, materials with shader parameters and mappings, objects with partial normals / UVs / ids / patches / mirrors, bones, morphs, physics), saved as .mqo (+.mqx) and .mqoz by the code, loaded again and compared; loading and saving again must reach a fixed point after one generation; the document passed to save must be unchanged; signature = file size + content hash",
		Assumptions: []string{"names and texture paths contain no double quotes, backslashes (paths: normalised to slashes) or line breaks, numbers are finite",
			"colours and lighting coefficients are stored with 3 decimals, specular power with 2, camera angles and zoom with 4, mirror distance with 6"},
		Require: []string{"mqo", "mqoz", "second_generation", "bones", "morphs", "physics", "ex2", "partial_normals", "negative_material", "vertex_uids", "renamed", "unchanged_input", "edited_history"},
		Cases:   mqoRTCases,
	})
}

func mqoFiles(dir string) map[string][]byte {
	out := map[string][]byte{}
	fs, err := os.ReadDir(dir)
	must(err)
	for _, f := range fs {
		b, err := os.ReadFile(filepath.Join(dir, f.Name()))
		must(err)
		out[f.Name()] = b
	}
	return out
}

func mqoRTCases(r *Run) {
	save := func(c *C, d *mqo.Document, dir, ext string) string {
		must(os.MkdirAll(dir, 0755))
		p := filepath.Join(dir, "モデル m."+ext)
		if err := mqo.Save(d, p); err != nil {
			c.Fatalf("Save %s: %v", ext, err)
		}
		return p
	}
	obs := func(c *C, d *mqo.Document) {
		for _, m := range d.Materials {
			if m.Ex2 != nil {
				c.Obs("ex2")
			}
		}
		for _, o := range d.Objects {
			if len(o.VertexByUID) > 0 {
				c.Obs("vertex_uids")
			}
			for _, f := range o.Faces {
				if f.Material < 0 {
					c.Obs("negative_material")
				}
				nils := 0
				for _, n := range f.Normals {
					if n == nil {
						nils++
					}
				}
				if nils > 0 && nils < len(f.Normals) {
					c.Obs("partial_normals")
				}
			}
		}
		for _, p := range d.Plugins {
			switch p := p.(type) {
			case *mqo.BonePlugin:
				c.ObsN("bones", len(p.Bones()))
			case *mqo.MorphPlugin:
				c.ObsN("morphs", len(p.Morphs()))
			case *mqo.PhysicsPlugin:
				c.ObsN("physics", len(p.Bodies))
			}
		}
	}
	rt := func(c *C, d *mqo.Document, ext, tag string) *mqo.Document {
		want := cloneMQO(d)
		p := save(c, d, filepath.Join(c.Dir(), tag+"1"), ext)
		if df := diffMQO(want, d); len(df) > 0 {
			c.Failf("saving %s modified the document: %v", ext, df)
		}
		c.Obs("unchanged_input")
		back, err := mqo.Load(p)
		if err != nil {
			b, _ := os.ReadFile(p)
			c.Fatalf("the saved %s does not load: %v\n%s", ext, err, tail(string(b), 3000))
		}
		if df := diffMQO(want, back); len(df) > 0 {
			c.Failf("%s round trip: %v", ext, df)
		}
		c.Obs(strings.ToLower(ext))
		// the stored form is a fixed point: load and save again, twice
		p2 := save(c, back, filepath.Join(c.Dir(), tag+"2"), ext)
		back2, err := mqo.Load(p2)
		if err != nil {
			c.Fatalf("the %s saved from a loaded document does not load: %v", ext, err)
		}
		if df := diffMQO(want, back2); len(df) > 0 {
			c.Failf("%s second round trip: %v", ext, df)
		}
		save(c, back2, filepath.Join(c.Dir(), tag+"3"), ext)
		f2, f3 := mqoFiles(filepath.Join(c.Dir(), tag+"2")), mqoFiles(filepath.Join(c.Dir(), tag+"3"))
		if df := deepDiff(f2, f3, 0); len(df) > 0 {
			c.Failf("loading and saving an unchanged %s keeps changing it: %v", ext, firstDiff(f2, f3))
		}
		save(c, d, filepath.Join(c.Dir(), tag+"4"), ext)
		f1, f4 := mqoFiles(filepath.Join(c.Dir(), tag+"1")), mqoFiles(filepath.Join(c.Dir(), tag+"4"))
		if df := deepDiff(f1, f4, 0); len(df) > 0 {
			c.Failf("saving the same document twice gives different files (%s): %v", ext, firstDiff(f1, f4))
		}
		c.Obs("second_generation")
		return back
	}
	n := r.N(1, 12)
	for _, ext := range []string{"mqo", "mqoz", "MQOZ"} {
		ext := ext
		r.Repeat("rt-"+ext, 400*n, func(c *C) {
			d := genMQO(c.R, c.R.Intn(3) > 0)
			obs(c, d)
			rt(c, d, ext, "a")
			c.Sig("%s %s", ext, fmt.Sprint(len(d.Objects), len(d.Materials), len(d.Plugins), c.R.Int63()))
		})
	}
	r.Repeat("large", 4*n, func(c *C) {
		d := genMQO(c.R, true)
		o := mqo.NewObject("large")
		o.UID = 77777
		for i := 0; i < 3000; i++ {
			o.Vertexes = append(o.Vertexes, pv(gv3(c.R)))
		}
		for i := 0; i < 2000; i++ {
			f := &mqo.Face{}
			for k := 0; k < 3+c.R.Intn(30); k++ {
				f.Verts = append(f.Verts, c.R.Intn(3000))
			}
			o.Faces = append(o.Faces, f)
		}
		d.Objects = append(d.Objects, o)
		b := &mqo.Bone{ID: 1, Name: "b"}
		for i := 0; i < 3000; i++ {
			b.SetVertexWeight(77777, i+1, c.R.Float32()*100)
		}
		mqo.GetBonePlugin(d).SetBones([]*mqo.Bone{b})
		for i := 0; i < 400; i++ {
			m := &mqo.Material{Name: fmt.Sprint("large", i), Color: col(c.R)}
			if c.R.Intn(2) == 0 {
				m.Ex2 = mqo.NewMaterialEx2("glTF")
				m.Ex2.ShaderType = "hlsl"
				m.Ex2.ShaderParams["AlphaMode"] = i
			}
			d.Materials = append(d.Materials, m)
		}
		rt(c, d, []string{"mqo", "mqoz"}[c.R.Intn(2)], "a")
		c.Sig("large %d", c.R.Int63())
	})
	r.Repeat("neighbours", 20*n, func(c *C) {
		// documents saved next to each other do not disturb each other
		names := []string{"m.mqo", "m.v1.mqo", "m.v2.mqo", "m.v1.x.mqo", "n.mqoz", "m.mqo.mqo", "model 1.mqo", "model 2.mqo", "モデル.mqo"}
		docs := map[string]*mqo.Document{}
		for _, k := range c.R.Perm(len(names))[:2+c.R.Intn(4)] {
			d := genMQO(c.R, true)
			docs[names[k]] = cloneMQO(d)
			if err := mqo.Save(d, filepath.Join(c.Dir(), names[k])); err != nil {
				c.Fatalf("%v", err)
			}
		}
		for name, want := range docs {
			got, err := mqo.Load(filepath.Join(c.Dir(), name))
			if err != nil {
				c.Fatalf("%s: %v", name, err)
			}
			if df := diffMQO(want, got); len(df) > 0 {
				c.Failf("%s changed when other documents were saved next to it: %v", name, df)
			}
			if mqx, err := os.ReadFile(filepath.Join(c.Dir(), strings.TrimSuffix(name, ".mqo")+".mqx")); err == nil && strings.HasSuffix(name, ".mqo") {
				var x struct{ IncludedBy string }
				if err := xml.Unmarshal(mqx, &x); err != nil || x.IncludedBy != name {
					c.Failf("the .mqx file of %s belongs to %q (%v)", name, x.IncludedBy, err)
				}
				c.Obs("mqx_owner")
			}
			c.Obs("neighbour")
		}
		c.Sig("neighbours %d %d", len(docs), c.R.Int63())
	})
	r.Repeat("history", 40*n, func(c *C) {
		// repeated load / edit / save
		d := genMQO(c.R, true)
		ext := []string{"mqo", "mqoz"}[c.R.Intn(2)]
		for i := 0; i < 4; i++ {
			d = rt(c, d, ext, fmt.Sprint("g", i))
			switch c.R.Intn(4) {
			case 0:
				o := mqo.NewObject(fmt.Sprint("added", i))
				o.Vertexes = append(o.Vertexes, pv(gv3(c.R)))
				d.Objects = append(d.Objects, o)
			case 1:
				bp := mqo.GetBonePlugin(d)
				b := &mqo.Bone{ID: len(bp.Bones()) + 1, Name: fmt.Sprint("bone", i)}
				if len(d.Objects) > 0 && d.Objects[0].UID > 0 {
					b.SetVertexWeight(d.Objects[0].UID, 1, 100)
				}
				bp.AddBone(b)
			case 2:
				if len(d.Objects) > 0 {
					d.Objects = d.Objects[1:]
				}
			case 3:
				if len(d.Materials) > 0 {
					d.Materials[0].Name += "x"
				}
			}
			c.Obs("edited_history")
		}
		c.Sig("history %d", c.R.Int63())
	})
	r.Repeat("dupnames", 100*n, func(c *C) {
		// equal names are made unique on save, the first one keeps its name
		d := genMQO(c.R, false)
		for i := 0; i < 3+c.R.Intn(4); i++ {
			d.Objects = append(d.Objects, mqo.NewObject([]string{"a", "a_2", "b", ""}[c.R.Intn(4)]))
			d.Materials = append(d.Materials, &mqo.Material{Name: []string{"m", "m_2", "m_3"}[c.R.Intn(3)]})
		}
		ext := []string{"mqo", "mqoz"}[c.R.Intn(2)]
		var on, mn []string
		for _, o := range d.Objects {
			on = append(on, o.Name)
		}
		for _, m := range d.Materials {
			mn = append(mn, m.Name)
		}
		back, err := mqo.Load(save(c, d, c.Dir(), ext))
		if err != nil {
			c.Fatalf("load: %v", err)
		}
		if len(back.Objects) != len(on) || len(back.Materials) != len(mn) {
			c.Fatalf("counts changed: %d/%d objects, %d/%d materials", len(back.Objects), len(on), len(back.Materials), len(mn))
		}
		chk := func(kind string, old []string, get func(i int) string) {
			first := map[string]bool{}
			seen := map[string]bool{}
			for i, o := range old {
				g := get(i)
				if seen[g] {
					c.Failf("two %ss named %q in the saved %s (names were %q)", kind, g, ext, old)
				}
				seen[g] = true
				if !first[o] && g != o {
					ok := false // may only have been renamed if an earlier rename took the name
					for j := 0; j < i; j++ {
						if get(j) == o {
							ok = true
						}
					}
					if !ok {
						c.Failf("%s %q renamed to %q needlessly", kind, o, g)
					}
				}
				if g != o {
					c.Obs("renamed")
				}
				first[o] = true
			}
		}
		chk("object", on, func(i int) string { return back.Objects[i].Name })
		chk("material", mn, func(i int) string { return back.Materials[i].Name })
		c.Sig("dup %q %q", on, mn)
	})
	r.Repeat("backslash", 20*n, func(c *C) {
		d := mqo.NewDocument()
		d.Materials = append(d.Materials, &mqo.Material{Name: "m", Texture: "tex\\a b\\c.png", AlphaTexture: "x\\y.bmp", BumpTexture: "b\\n.png"})
		back, err := mqo.Load(save(c, d, c.Dir(), "mqo"))
		if err != nil {
			c.Fatalf("load: %v", err)
		}
		m := back.Materials[0]
		if m.Texture != "tex/a b/c.png" || m.AlphaTexture != "x/y.bmp" || m.BumpTexture != "b/n.png" {
			c.Failf("texture paths %q %q %q", m.Texture, m.AlphaTexture, m.BumpTexture)
		}
		c.Sig("backslash")
	})
	r.Repeat("stream", 60*n, func(c *C) {
		// writer and parser without file names (no plugins)
		d := genMQO(c.R, false)
		want := cloneMQO(d)
		var b bytes.Buffer
		if err := mqo.NewWriter("").WriteMQO(d, &b); err != nil {
			c.Fatalf("WriteMQO: %v", err)
		}
		back, err := mqo.NewParser(hostileReader(c, b.Bytes()), "").Parse()
		if err != nil {
			c.Fatalf("parse: %v\n%s", err, tail(b.String(), 2000))
		}
		if df := diffMQO(want, back); len(df) > 0 {
			c.Failf("stream round trip: %v", df)
		}
		c.Sig("stream %d", b.Len())
	})
}

func firstDiff(a, b map[string][]byte) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return "file " + k + " missing"
		}
		if !bytes.Equal(v, w) {
			i := 0
			for i < len(v) && i < len(w) && v[i] == w[i] {
				i++
			}
			lo := i - 60
			if lo < 0 {
				lo = 0
			}
			cut := func(x []byte) string {
				hi := i + 60
				if hi > len(x) {
					hi = len(x)
				}
				return string(x[lo:hi])
			}
			return fmt.Sprintf("%s at byte %d: %q vs %q", k, i, cut(v), cut(w))
		}
	}
	return "file sets differ"
}

var _ = io.EOF
