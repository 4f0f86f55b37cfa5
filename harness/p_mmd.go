package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
)

func init() {
	register(&Prop{
		ID:   "P03",
		Rule: "seeded models with every vertex weight kind, bone flag combination, morph kind, rigid body and joint, at sizes around each index-width boundary (255/256, 127/128, 32767/32768, 65535/65536); each is written by the code and read back both by the code and by an independent PMX decoder, and must equal the original bit for bit; signature = section sizes + weight/flag census",
		Assumptions: []string{"the model's cross references are in range and every vertex carries as many extra UVs as the header announces",
			"data the in-memory model has no place for (display frames, local axes) is not part of the comparison"},
		Require: []string{"roundtrip", "independent_decode", "vertices_over_64k", "bones_over_127", "bodies_over_127", "textures_over_127", "sdef", "ik", "joint", "file_roundtrip", "via_pmd"},
		Cases:   pmxRTCases,
	})
	register(&Prop{
		ID:          "P04",
		Rule:        "seeded models serialised by an independent PMX 2.0 / PMD encoder with every legal combination of text encoding and index width, extra UVs, display frames, bone/extra-UV morphs, local axes and external keys (PMX) and garbage-padded Shift_JIS fields (PMD); what the loader returns must equal the encoded model field by field; signature = encoder options + section sizes",
		Assumptions: []string{"files follow the PMX 2.0 / PMD layout"},
		Require:     []string{"pmx", "utf16", "utf8", "idx1", "idx2", "idx4", "extuv", "frames", "pmd", "pmd_morph", "pmd_ik", "small_reads", "long_text"},
		Cases:       mmdReadCases,
	})
}

func normRT(d *mmd.Document) {
	for _, v := range d.Vertexes {
		switch len(v.BoneWeights) {
		case 0:
			v.Bones, v.BoneWeights = []int{-1}, []float32{1}
		case 1:
			v.BoneWeights = []float32{1}
		case 3:
			v.Bones, v.BoneWeights = append(v.Bones, -1), append(v.BoneWeights, 0)
		}
	}
}

func cmpPMX(want, got *mmd.Document) []string {
	d := &differ{skip: map[string]bool{"Header": true}}
	d.walkAny(want, got)
	return d.out
}

func pmxRTCases(r *Run) {
	n := r.N(3, 30)
	one := func(c *C, g pmxGen, setup func(d *mmd.Document)) {
		d := genPMX(c.R, g)
		d.Header.Info[1] = byte(g.extUV)
		if setup != nil {
			setup(d)
		}
		want := clonePMX(d)
		normRT(want)
		// vertices with 0 or 3 influences are legal inputs for the writer
		for i, v := range d.Vertexes {
			if c.R.Intn(10) == 0 && len(v.BoneWeights) == 4 {
				if c.R.Intn(2) == 0 {
					v.Bones, v.BoneWeights = nil, nil
					want.Vertexes[i].Bones, want.Vertexes[i].BoneWeights = []int{-1}, []float32{1}
				} else {
					v.Bones, v.BoneWeights = v.Bones[:3:3], v.BoneWeights[:3:3]
					want.Vertexes[i].Bones, want.Vertexes[i].BoneWeights = append(want.Vertexes[i].Bones[:3:3], -1), append(want.Vertexes[i].BoneWeights[:3:3], 0)
				}
			}
		}
		var buf bytes.Buffer
		if err := mmd.WritePMX(d, &buf); err != nil {
			c.Fatalf("WritePMX: %v", err)
		}
		ind, err := decPMX(buf.Bytes())
		if err != nil {
			c.Failf("independent decoder rejects the written file: %v (sizes %+v)", err, g)
		} else if df := cmpPMX(want, ind); len(df) > 0 {
			c.Failf("written file decodes differently: %v", df)
		}
		c.Obs("independent_decode")
		back, err := mmd.Parse(bytes.NewReader(buf.Bytes()))
		if err != nil {
			c.Fatalf("own reader rejects the written file: %v (sizes %+v)", err, g)
		}
		if df := cmpPMX(want, back); len(df) > 0 {
			c.Failf("write/read changes the model: %v", df)
		}
		c.Obs("roundtrip")
		// second generation must be stable
		var buf2 bytes.Buffer
		if err := mmd.WritePMX(back, &buf2); err != nil {
			c.Failf("second write: %v", err)
		} else if b2, err := mmd.Parse(bytes.NewReader(buf2.Bytes())); err != nil {
			c.Failf("second read: %v", err)
		} else if df := cmpPMX(want, b2); len(df) > 0 {
			c.Failf("second generation differs: %v", df)
		}
		for _, v := range want.Vertexes {
			if len(v.BoneWeights) == 11 {
				c.Obs("sdef")
			}
		}
		for _, b := range want.Bones {
			if len(b.IK.Links) > 0 {
				c.Obs("ik")
			}
		}
		c.ObsN("joint", len(want.Joints))
		if len(want.Vertexes) > 65535 {
			c.Obs("vertices_over_64k")
		}
		if len(want.Bones) > 127 {
			c.Obs("bones_over_127")
		}
		if len(want.Bodies) > 127 {
			c.Obs("bodies_over_127")
		}
		if len(want.Textures) > 127 {
			c.Obs("textures_over_127")
		}
		c.Sig("%+v %d %x", g, buf.Len(), want.Name)
		c.Sample(fmt.Sprintf("model %+v -> %d bytes", g, buf.Len()))
	}
	r.Repeat("random", 60*n, func(c *C) {
		q := func(k int) int { return c.R.Intn(k) }
		one(c, pmxGen{q(40), q(40), q(6), q(6), q(20), q(10), q(8), q(6), q(5), false}, nil)
	})
	r.Case("empty", func(c *C) { one(c, pmxGen{}, nil) })
	// boundaries of every index width
	for _, k := range []int{126, 127, 128, 129, 254, 255, 256, 257} {
		k := k
		r.Case(fmt.Sprintf("small-boundary/%d", k), func(c *C) {
			one(c, pmxGen{verts: k, faces: 30, texs: k, mats: k, bones: k, morphs: k, bodies: k, joints: 20}, func(d *mmd.Document) {
				d.Header.Info = []byte{1, 0, 1, 1, 1, 1, 1, 1}
			})
		})
		r.Case(fmt.Sprintf("small-boundary-default/%d", k), func(c *C) {
			one(c, pmxGen{verts: k, faces: 30, texs: k, mats: k, bones: k, morphs: k, bodies: k, joints: 20}, nil)
		})
	}
	for i, sec := range []string{"verts", "texs", "mats", "bones", "morphs", "bodies"} {
		i, sec := i, sec
		for _, k := range []int{32767, 32768, 32769, 65535, 65536, 65537} {
			if i > 0 && k > 40000 && !r.Thorough {
				continue
			}
			k := k
			r.Case(fmt.Sprintf("big-boundary/%s/%d", sec, k), func(c *C) {
				g := pmxGen{verts: 10, faces: 50, texs: 2, mats: 2, bones: 3, morphs: 12, bodies: 3, joints: 10}
				*[]*int{&g.verts, &g.texs, &g.mats, &g.bones, &g.morphs, &g.bodies}[i] = k
				one(c, g, nil)
			})
		}
	}
	r.Repeat("files", 10*n, func(c *C) {
		d := genPMX(c.R, pmxGen{verts: 10, faces: 10, texs: 2, mats: 2, bones: 5, morphs: 4, bodies: 3, joints: 3})
		want := clonePMX(d)
		p := filepath.Join(c.Dir(), "m.pmx")
		if err := mmd.Save(d, p); err != nil {
			c.Fatalf("Save: %v", err)
		}
		back, err := mmd.Load(p)
		if err != nil {
			c.Fatalf("Load: %v", err)
		}
		if df := cmpPMX(want, back); len(df) > 0 {
			c.Failf("file round trip: %v", df)
		}
		// overwriting a longer file must not leave a tail behind
		os.WriteFile(p, bytes.Repeat([]byte{0xaa}, 1<<16), 0644)
		if err := mmd.Save(want, p); err != nil {
			c.Fatalf("Save over: %v", err)
		}
		if b, _ := os.ReadFile(p); len(b) >= 1<<16 {
			c.Failf("old file content left behind")
		} else if ind, err := decPMX(b); err != nil || len(cmpPMX(back, ind)) > 0 {
			c.Failf("saved file: %v %v", err, cmpPMX(back, ind))
		}
		c.Obs("file_roundtrip")
		c.Sig("file %q", want.Name)
	})
	r.Repeat("via-pmd", 10*n, func(c *C) {
		m := genPMD(c.R)
		d, err := mmd.Parse(bytes.NewReader(encPMD(m, c.R)))
		if err != nil {
			c.Fatalf("pmd: %v", err)
		}
		var buf bytes.Buffer
		if err := mmd.WritePMX(d, &buf); err != nil {
			c.Fatalf("pmd as pmx: %v", err)
		}
		ind, err := decPMX(buf.Bytes())
		if err != nil {
			c.Fatalf("pmd as pmx is unreadable: %v", err)
		}
		if len(ind.Vertexes) != len(m.verts) || len(ind.Faces) != len(m.faces) || len(ind.Bones) != len(m.bones) || len(ind.Materials) != len(m.mats) {
			c.Fatalf("pmd as pmx: counts differ")
		}
		for i, v := range m.verts {
			if ind.Vertexes[i].Pos != v.pos || ind.Vertexes[i].UV != v.uv {
				c.Failf("pmd as pmx vertex %d", i)
			}
		}
		for i, f := range m.faces {
			if ind.Faces[i].Verts != f {
				c.Failf("pmd as pmx face %d", i)
			}
		}
		for i, b := range m.bones {
			if ind.Bones[i].Name != b.name || ind.Bones[i].Pos != b.pos {
				c.Failf("pmd as pmx bone %d", i)
			}
		}
		for i := range m.morphs {
			if len(ind.Morphs) != len(m.morphs) || len(ind.Morphs[i].Vertex) != len(m.morphs[i].off) {
				c.Failf("pmd as pmx morph %d", i)
				break
			}
		}
		c.Obs("via_pmd")
		c.Sig("pmd %s %d", m.name, len(m.verts))
	})
}

func (d *differ) walkAny(a, b interface{}) { d.walk("", reflectValue(a), reflectValue(b)) }

// ------------------------------------------------------------------ PMD

type pmdVert struct {
	pos, nrm geom.Vector3
	uv       geom.Vector2
	b0, b1   int
	w, edge  int
}
type pmdMat struct {
	color geom.Vector4
	power float32
	spec  geom.Vector3
	amb   geom.Vector3
	toon  int
	edge  int
	count int
	tex   string
}
type pmdBone struct {
	name         string
	parent, tail int
	typ          int
	ik           int
	pos          geom.Vector3
}
type pmdIK struct {
	bone, target, loop int
	limit              float32
	links              []int
}
type pmdMorph struct {
	name   string
	panel  int
	target []int // index into base list
	off    []geom.Vector3
}
type pmdModel struct {
	name, comment string
	verts         []pmdVert
	faces         [][3]int
	mats          []pmdMat
	bones         []pmdBone
	iks           []pmdIK
	base          []int
	morphs        []pmdMorph
}

func sjName(r *rand.Rand, max int) string {
	for {
		s := "k" + rname(r, sjisAlphabet, max/2)
		if len(sjis(s)) <= max {
			return s
		}
	}
}

func genPMD(r *rand.Rand) *pmdModel { return genPMDSized(r, false) }

func genPMDSized(r *rand.Rand, big bool) *pmdModel {
	m := &pmdModel{name: sjName(r, 20), comment: sjName(r, 60)}
	nv, nb := r.Intn(40), 1+r.Intn(10)
	if big {
		nv, nb = 33000+r.Intn(32000), 200+r.Intn(300)
	}
	for i := 0; i < nv; i++ {
		m.verts = append(m.verts, pmdVert{gv3(r), gv3(r), geom.Vector2{X: rf(r), Y: rf(r)}, r.Intn(nb), r.Intn(nb), r.Intn(101), r.Intn(2)})
	}
	nf := 0
	if nv > 0 {
		nf = r.Intn(30)
	}
	if big {
		nf = 1000 + r.Intn(9000)
	}
	for i := 0; i < nf; i++ {
		m.faces = append(m.faces, [3]int{r.Intn(nv), r.Intn(nv), r.Intn(nv)})
	}
	left := nf
	nm := 1 + r.Intn(4)
	for i := 0; i < nm; i++ {
		k := left
		if i < nm-1 && left > 0 {
			k = r.Intn(left + 1)
		}
		left -= k
		t := ""
		switch r.Intn(3) {
		case 0:
			t = sjName(r, 12) + ".bmp"
		case 1:
			t = "a.bmp*b.sph"
		}
		al := r.Float32()
		if r.Intn(2) == 0 {
			al = 1
		}
		m.mats = append(m.mats, pmdMat{geom.Vector4{X: rf(r), Y: rf(r), Z: rf(r), W: al}, rf(r), gv3(r), gv3(r), r.Intn(11), r.Intn(2), k * 3, t})
	}
	for i := 0; i < nb; i++ {
		m.bones = append(m.bones, pmdBone{sjName(r, 20), pickOrNone(r, nb), r.Intn(nb), r.Intn(10), r.Intn(nb), gv3(r)})
	}
	for i := r.Intn(3); i > 0; i-- {
		k := pmdIK{r.Intn(nb), r.Intn(nb), r.Intn(100), rf(r), nil}
		nl := r.Intn(4)
		if big {
			nl = 100 + r.Intn(156)
		}
		for j := nl; j > 0; j-- {
			k.links = append(k.links, r.Intn(nb))
		}
		dup := false
		for _, o := range m.iks {
			dup = dup || o.bone == k.bone
		}
		if !dup {
			m.iks = append(m.iks, k)
		}
	}
	if nv > 0 && r.Intn(4) > 0 {
		for _, v := range r.Perm(nv)[:1+r.Intn(nv)] {
			m.base = append(m.base, v)
		}
		nmo := r.Intn(4)
		if big {
			nmo = 200 + r.Intn(200)
		}
		for i := nmo; i > 0; i-- {
			x := pmdMorph{name: sjName(r, 20), panel: 1 + r.Intn(4)}
			for j := r.Intn(6); j > 0; j-- {
				x.target = append(x.target, r.Intn(len(m.base)))
				x.off = append(x.off, gv3(r))
			}
			m.morphs = append(m.morphs, x)
		}
	}
	return m
}

func encPMD(m *pmdModel, r *rand.Rand) []byte {
	b := &bin{}
	fill := []byte{0, 0xfd, 0xcc}[r.Intn(3)]
	str := func(s string, n int) { b.Write(fixedSJIS(s, n, fill)) }
	b.WriteString("Pmd")
	b.f32(1)
	str(m.name, 20)
	str(m.comment, 256)
	b.u32(len(m.verts))
	for _, v := range m.verts {
		pv3(b, v.pos)
		pv3(b, v.nrm)
		b.f32s(v.uv.X, v.uv.Y)
		b.u16(v.b0)
		b.u16(v.b1)
		b.u8(v.w)
		b.u8(v.edge)
	}
	b.u32(len(m.faces) * 3)
	for _, f := range m.faces {
		b.u16(f[0])
		b.u16(f[1])
		b.u16(f[2])
	}
	b.u32(len(m.mats))
	for _, x := range m.mats {
		pv4(b, x.color)
		b.f32(x.power)
		pv3(b, x.spec)
		pv3(b, x.amb)
		b.u8(x.toon)
		b.u8(x.edge)
		b.u32(x.count)
		str(x.tex, 20)
	}
	b.u16(len(m.bones))
	for _, x := range m.bones {
		str(x.name, 20)
		b.u16(x.parent)
		b.u16(x.tail)
		b.u8(x.typ)
		b.u16(x.ik)
		pv3(b, x.pos)
	}
	b.u16(len(m.iks))
	for _, k := range m.iks {
		b.u16(k.bone)
		b.u16(k.target)
		b.u8(len(k.links))
		b.u16(k.loop)
		b.f32(k.limit)
		for _, l := range k.links {
			b.u16(l)
		}
	}
	if len(m.base) == 0 {
		b.u16(0)
	} else {
		b.u16(len(m.morphs) + 1)
		str("base", 20)
		b.u32(len(m.base))
		b.u8(0)
		for _, v := range m.base {
			b.u32(v)
			pv3(b, m.verts[v].pos)
		}
		for _, x := range m.morphs {
			str(x.name, 20)
			b.u32(len(x.target))
			b.u8(x.panel)
			for i, t := range x.target {
				b.u32(t)
				pv3(b, x.off[i])
			}
		}
	}
	// optional sections after the morphs: display lists etc. (ignored by design)
	if r.Intn(2) == 0 {
		b.u8(0)
		b.u8(0)
		b.u32(0)
		b.u8(0)
	}
	return b.Bytes()
}

func checkPMD(c *C, m *pmdModel, d *mmd.Document) {
	if d.Name != m.name || d.Comment != m.comment {
		c.Failf("pmd name %q comment %q want %q %q", d.Name, d.Comment, m.name, m.comment)
	}
	if len(d.Vertexes) != len(m.verts) || len(d.Faces) != len(m.faces) || len(d.Materials) != len(m.mats) || len(d.Bones) != len(m.bones) || len(d.Morphs) != len(m.morphs) {
		c.Fatalf("pmd section sizes differ: v%d f%d m%d b%d o%d", len(d.Vertexes), len(d.Faces), len(d.Materials), len(d.Bones), len(d.Morphs))
	}
	for i, v := range m.verts {
		g := d.Vertexes[i]
		w := float32(v.w) / 100
		if g.Pos != v.pos || g.Normal != v.nrm || g.UV != v.uv || len(g.Bones) != 2 || g.Bones[0] != v.b0 || g.Bones[1] != v.b1 ||
			!near(float64(g.BoneWeights[0]), float64(w), 1e-6) || !near(float64(g.BoneWeights[1]), float64(1-w), 1e-6) {
			c.Failf("pmd vertex %d: %+v want %+v", i, *g, v)
		}
	}
	for i, f := range m.faces {
		if d.Faces[i].Verts != f {
			c.Failf("pmd face %d: %v want %v", i, d.Faces[i].Verts, f)
		}
	}
	for i, x := range m.mats {
		g := d.Materials[i]
		if g.Color != x.color || g.Specularity != x.power || g.Specular != x.spec || g.AColor != x.amb || g.Count != x.count {
			c.Failf("pmd material %d: %+v want %+v", i, *g, x)
		}
		tex := x.tex
		if k := bytes.IndexByte([]byte(tex), '*'); k >= 0 {
			tex = tex[:k]
		}
		if tex == "" {
			if g.TextureID != -1 {
				c.Failf("pmd material %d has texture %d want none", i, g.TextureID)
			}
		} else if g.TextureID < 0 || g.TextureID >= len(d.Textures) || d.Textures[g.TextureID] != tex {
			c.Failf("pmd material %d texture %d of %q want %q", i, g.TextureID, d.Textures, tex)
		}
	}
	for i, x := range m.bones {
		g := d.Bones[i]
		tail := x.tail
		if tail == 0 {
			tail = -1
		}
		if g.Name != x.name || g.ParentID != x.parent || g.Pos != x.pos || g.TailID != tail {
			c.Failf("pmd bone %d: %+v want %+v", i, *g, x)
		}
	}
	for _, k := range m.iks {
		g := d.Bones[k.bone].IK
		ok := g.TargetID == k.target && g.Loop == k.loop && len(g.Links) == len(k.links)
		for i := 0; ok && i < len(k.links); i++ {
			ok = g.Links[i].TargetID == k.links[i]
		}
		if !ok {
			c.Failf("pmd ik %+v: %+v", k, g)
		}
		c.Obs("pmd_ik")
	}
	for i, x := range m.morphs {
		g := d.Morphs[i]
		if g.Name != x.name || int(g.PanelType) != x.panel || len(g.Vertex) != len(x.target) {
			c.Failf("pmd morph %d: %q panel %d n %d want %+v", i, g.Name, g.PanelType, len(g.Vertex), x)
			continue
		}
		for k := range x.target {
			if g.Vertex[k].Target != m.base[x.target[k]] || g.Vertex[k].Offset != x.off[k] {
				c.Failf("pmd morph %q entry %d: %+v", x.name, k, *g.Vertex[k])
			}
		}
		c.Obs("pmd_morph")
	}
}

func mmdReadCases(r *Run) {
	n := r.N(4, 40)
	r.Repeat("pmx", 100*n, func(c *C) {
		q := func(k int) int { return c.R.Intn(k) }
		g := pmxGen{q(40), q(40), q(6), q(6), q(20), q(10), q(8), q(6), q(5), true}
		if q(12) == 0 {
			g.verts, g.bones = 250+q(20), 120+q(16)
		}
		d := genPMX(c.R, g)
		o := pmxOpts{utf16: q(2) == 0, sz: randSizes(c.R, d), extUV: g.extUV, frames: q(4), extras: true}
		data := encPMX(d, o, c.R)
		if q(3) == 0 { // trailing soft-body count / bytes must not matter
			data = append(data, 0, 0, 0, 0)
		}
		got, err := mmd.Parse(hostileReader(c, data))
		if err != nil {
			c.Fatalf("valid PMX rejected: %v (opts %+v)", err, o)
		}
		if df := cmpPMX(d, got); len(df) > 0 {
			c.Fatalf("opts %+v: %v", o, df)
		}
		c.Obs("pmx")
		if o.utf16 {
			c.Obs("utf16")
		} else {
			c.Obs("utf8")
		}
		for _, s := range o.sz {
			c.Obs(fmt.Sprintf("idx%d", s))
		}
		if g.extUV > 0 && g.verts > 0 {
			c.Obs("extuv")
		}
		if o.frames > 0 {
			c.Obs("frames")
		}
		c.Sig("pmx %+v %+v", o, g)
		c.Sample(fmt.Sprintf("PMX %d bytes, opts %+v, sections %+v", len(data), o, g))
	})
	r.Repeat("text", r.N(8, 80), longTextCase)
	r.Case("pmx-large", func(c *C) {
		d := genPMX(c.R, pmxGen{verts: 66000, faces: 70000, mats: 1})
		for _, o := range []pmxOpts{{utf16: true, sz: [6]int{4, 1, 1, 1, 1, 1}}} {
			got, err := mmd.Parse(bytes.NewReader(encPMX(d, o, c.R)))
			if err != nil {
				c.Fatalf("large: %v", err)
			}
			if df := cmpPMX(d, got); len(df) > 0 {
				c.Fatalf("large: %v", df)
			}
		}
		d.Vertexes = d.Vertexes[:65535]
		for _, f := range d.Faces {
			for i := range f.Verts {
				if f.Verts[i] > 65534 {
					f.Verts[i] = 65534
				}
			}
		}
		got, err := mmd.Parse(bytes.NewReader(encPMX(d, pmxOpts{sz: [6]int{2, 1, 1, 1, 1, 1}}, c.R)))
		if err != nil {
			c.Fatalf("large2: %v", err)
		}
		if df := cmpPMX(d, got); len(df) > 0 {
			c.Fatalf("large2: %v", df)
		}
		c.Sig("large")
	})
	r.Repeat("pmd", 100*n, func(c *C) {
		m := genPMD(c.R)
		data := encPMD(m, c.R)
		got, err := mmd.Parse(hostileReader(c, data))
		if err != nil {
			c.Fatalf("valid PMD rejected: %v", err)
		}
		checkPMD(c, m, got)
		c.Obs("pmd")
		c.Sig("pmd %s %d %d %d", m.name, len(m.verts), len(m.bones), len(m.morphs))
	})
	r.Repeat("pmd-large", 4, func(c *C) {
		m := genPMDSized(c.R, true)
		got, err := mmd.Parse(bytes.NewReader(encPMD(m, c.R)))
		if err != nil {
			c.Fatalf("valid large PMD rejected: %v", err)
		}
		checkPMD(c, m, got)
		c.Obs("pmd_large")
		c.Sig("pmd %d %d %d", len(m.verts), len(m.bones), len(m.morphs))
	})
	r.Case("not-mmd", func(c *C) {
		for _, s := range []string{"", "P", "PM", "Pmx", "PMY 1234", "Metasequoia Document", "PMX\x00", "pmd1234"} {
			if d, err := mmd.Parse(bytes.NewReader([]byte(s))); err == nil {
				c.Failf("%q accepted as a model: %v", s, d)
			}
		}
	})
}
