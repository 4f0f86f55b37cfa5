package main

// Independent PMX 2.0 / PMD / VMD encoders and a PMX decoder written from the
// public format descriptions. They share no code with the repository; the
// mmd.Document type is used as the abstract model only.

import (
	"fmt"
	"math/rand"
	"unicode/utf16"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
)

type pmxOpts struct {
	utf16  bool
	sz     [6]int // vertex texture material bone morph body
	extUV  int
	frames int
	extras bool // local axes / external keys with arbitrary values, bone morphs, extra UV morphs
}

func pv3(b *bin, v geom.Vector3) { b.f32s(v.X, v.Y, v.Z) }
func pv4(b *bin, v geom.Vector4) { b.f32s(v.X, v.Y, v.Z, v.W) }

type pmxExtra struct {
	boneMorphs map[int]int // morph index -> number of bone offsets (type 2) or extra uv entries
}

func encPMX(doc *mmd.Document, o pmxOpts, r *rand.Rand) []byte {
	b := &bin{}
	text := func(s string) {
		if o.utf16 {
			u := utf16.Encode([]rune(s))
			b.u32(len(u) * 2)
			for _, c := range u {
				b.u16(int(c))
			}
		} else {
			b.u32(len(s))
			b.WriteString(s)
		}
	}
	b.WriteString("PMX ")
	b.f32(2.0)
	b.u8(8)
	enc := 1
	if o.utf16 {
		enc = 0
	}
	b.u8(enc)
	b.u8(o.extUV)
	for _, s := range o.sz {
		b.u8(s)
	}
	vs, ts, ms, bs, os, rs := o.sz[0], o.sz[1], o.sz[2], o.sz[3], o.sz[4], o.sz[5]
	text(doc.Name)
	text(doc.NameEn)
	text(doc.Comment)
	text(doc.CommentEn)
	b.u32(len(doc.Vertexes))
	for _, v := range doc.Vertexes {
		pv3(b, v.Pos)
		pv3(b, v.Normal)
		b.f32s(v.UV.X, v.UV.Y)
		for _, u := range v.ExtUVs {
			pv4(b, u)
		}
		switch len(v.BoneWeights) {
		case 1:
			b.u8(0)
			b.idx(bs, v.Bones[0])
		case 2:
			b.u8(1)
			b.idx(bs, v.Bones[0])
			b.idx(bs, v.Bones[1])
			b.f32(v.BoneWeights[0])
		case 4:
			b.u8(2)
			for _, x := range v.Bones {
				b.idx(bs, x)
			}
			b.f32s(v.BoneWeights...)
		case 11:
			b.u8(3)
			b.idx(bs, v.Bones[0])
			b.idx(bs, v.Bones[1])
			b.f32(v.BoneWeights[0])
			b.f32s(v.BoneWeights[2:]...)
		default:
			panic(infra{fmt.Errorf("weights %d", len(v.BoneWeights))})
		}
		b.f32(v.EdgeScale)
	}
	b.u32(len(doc.Faces) * 3)
	for _, f := range doc.Faces {
		for _, v := range f.Verts {
			b.idx(vs, v)
		}
	}
	b.u32(len(doc.Textures))
	for _, t := range doc.Textures {
		text(t)
	}
	b.u32(len(doc.Materials))
	for _, m := range doc.Materials {
		text(m.Name)
		text(m.NameEn)
		pv4(b, m.Color)
		pv3(b, m.Specular)
		b.f32(m.Specularity)
		pv3(b, m.AColor)
		b.u8(int(m.Flags))
		pv4(b, m.EdgeColor)
		b.f32(m.EdgeScale)
		b.idx(ts, m.TextureID)
		b.idx(ts, m.EnvID)
		b.u8(int(m.EnvMode))
		b.u8(int(m.ToonType))
		if m.ToonType == 0 {
			b.idx(ts, m.Toon)
		} else {
			b.u8(m.Toon)
		}
		text(m.Memo)
		b.u32(m.Count)
	}
	b.u32(len(doc.Bones))
	for _, x := range doc.Bones {
		text(x.Name)
		text(x.NameEn)
		pv3(b, x.Pos)
		b.idx(bs, x.ParentID)
		b.u32(x.Layer)
		b.u16(int(x.Flags))
		if x.Flags&1 != 0 {
			b.idx(bs, x.TailID)
		} else {
			pv3(b, x.TailPos)
		}
		if x.Flags&0x300 != 0 {
			b.idx(bs, x.InheritParentID)
			b.f32(x.InheritParentInfluence)
		}
		if x.Flags&0x400 != 0 {
			pv3(b, x.FixedAxis)
		}
		if x.Flags&0x800 != 0 {
			b.f32s(rf(r), rf(r), rf(r), rf(r), rf(r), rf(r))
		}
		if x.Flags&0x2000 != 0 {
			b.u32(r.Intn(1000))
		}
		if x.Flags&0x20 != 0 {
			b.idx(bs, x.IK.TargetID)
			b.u32(x.IK.Loop)
			b.f32(x.IK.LimitRad)
			b.u32(len(x.IK.Links))
			for _, l := range x.IK.Links {
				b.idx(bs, l.TargetID)
				if l.HasLimit {
					b.u8(1)
					pv3(b, l.LimitMin)
					pv3(b, l.LimitMax)
				} else {
					b.u8(0)
				}
			}
		}
	}
	b.u32(len(doc.Morphs))
	for _, m := range doc.Morphs {
		text(m.Name)
		text(m.NameEn)
		b.u8(int(m.PanelType))
		b.u8(int(m.MorphType))
		switch m.MorphType {
		case 0:
			b.u32(len(m.Group))
			for _, g := range m.Group {
				b.idx(os, g.Target)
				b.f32(g.Weight)
			}
		case 1:
			b.u32(len(m.Vertex))
			for _, v := range m.Vertex {
				b.idx(vs, v.Target)
				pv3(b, v.Offset)
			}
		case 2:
			n := r.Intn(4)
			b.u32(n)
			for i := 0; i < n; i++ {
				b.idx(bs, r.Intn(3))
				for k := 0; k < 7; k++ {
					b.f32(rf(r))
				}
			}
		case 3:
			b.u32(len(m.UV))
			for _, v := range m.UV {
				b.idx(vs, v.Target)
				pv4(b, v.Value)
			}
		case 4, 5, 6, 7:
			n := r.Intn(4)
			b.u32(n)
			for i := 0; i < n; i++ {
				b.idx(vs, r.Intn(3))
				b.f32s(rf(r), rf(r), rf(r), rf(r))
			}
		case 8:
			b.u32(len(m.Material))
			for _, v := range m.Material {
				b.idx(ms, v.Target)
				b.u8(int(v.Flags))
				pv4(b, v.Diffuse)
				pv3(b, v.Specular)
				b.f32(v.Specularity)
				pv3(b, v.Ambient)
				pv4(b, v.EdgeColor)
				b.f32(v.EdgeSize)
				pv4(b, v.TextureTint)
				pv4(b, v.EnvironmentTint)
				pv4(b, v.ToonTint)
			}
		}
	}
	b.u32(o.frames)
	for i := 0; i < o.frames; i++ {
		text(rname(r, nameAlphabet, 4))
		text(rname(r, nameAlphabet, 4))
		b.u8(r.Intn(2))
		n := r.Intn(5)
		b.u32(n)
		for k := 0; k < n; k++ {
			if r.Intn(2) == 0 {
				b.u8(0)
				b.idx(bs, r.Intn(5))
			} else {
				b.u8(1)
				b.idx(os, r.Intn(5))
			}
		}
	}
	b.u32(len(doc.Bodies))
	for _, x := range doc.Bodies {
		text(x.Name)
		text(x.NameEn)
		b.idx(bs, x.Bone)
		b.u8(x.Group)
		b.u16(x.GroupTarget)
		b.u8(int(x.Shape))
		pv3(b, x.Size)
		pv3(b, x.Position)
		pv3(b, x.Rotation)
		b.f32s(x.Mass, x.LinearDamping, x.AngularDamping, x.Restitution, x.Friction)
		b.u8(int(x.Mode))
	}
	b.u32(len(doc.Joints))
	for _, j := range doc.Joints {
		text(j.Name)
		text(j.NameEn)
		b.u8(int(j.Type))
		b.idx(rs, j.Body1)
		b.idx(rs, j.Body2)
		for _, v := range []geom.Vector3{j.Position, j.Rotation, j.PositionMin, j.PositionMax, j.RotationMin, j.RotationMax, j.LinerSpring, j.AngulerSpring} {
			pv3(b, v)
		}
	}
	return b.Bytes()
}

// decPMX is the independent decoder.
func decPMX(data []byte) (doc *mmd.Document, err error) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(shortInput); ok {
				err = fmt.Errorf("file ends at %d", s.pos)
				return
			}
			panic(e)
		}
	}()
	u := &unbin{b: data}
	if string(u.take(4)) != "PMX " {
		return nil, fmt.Errorf("bad signature")
	}
	if v := u.f(); v != 2.0 {
		return nil, fmt.Errorf("version %v", v)
	}
	if n := u.u8(); n != 8 {
		return nil, fmt.Errorf("globals %d", n)
	}
	enc, ext := u.u8(), u.u8()
	var sz [6]int
	for i := range sz {
		sz[i] = u.u8()
		if sz[i] != 1 && sz[i] != 2 && sz[i] != 4 {
			return nil, fmt.Errorf("index size %d", sz[i])
		}
	}
	text := func() string {
		n := u.i32()
		d := u.take(n)
		if enc == 1 {
			return string(d)
		}
		w := make([]uint16, n/2)
		for i := range w {
			w[i] = uint16(d[i*2]) | uint16(d[i*2+1])<<8
		}
		return string(utf16.Decode(w))
	}
	idx := func(k int) int { // signed
		switch sz[k] {
		case 1:
			return int(int8(u.u8()))
		case 2:
			return u.i16()
		}
		return u.i32()
	}
	vidx := func() int {
		switch sz[0] {
		case 1:
			return u.u8()
		case 2:
			return u.u16()
		}
		return u.i32()
	}
	v3r := func() geom.Vector3 { return geom.Vector3{X: u.f(), Y: u.f(), Z: u.f()} }
	v4r := func() geom.Vector4 { return geom.Vector4{X: u.f(), Y: u.f(), Z: u.f(), W: u.f()} }
	cnt := func() int {
		n := u.i32()
		if n < 0 || n > len(data) {
			panic(shortInput{u.pos})
		}
		return n
	}
	doc = &mmd.Document{}
	doc.Name, doc.NameEn, doc.Comment, doc.CommentEn = text(), text(), text(), text()
	for n := cnt(); n > 0; n-- {
		v := &mmd.Vertex{Pos: v3r(), Normal: v3r()}
		v.UV = geom.Vector2{X: u.f(), Y: u.f()}
		for i := 0; i < ext; i++ {
			v.ExtUVs = append(v.ExtUVs, v4r())
		}
		switch t := u.u8(); t {
		case 0:
			v.Bones, v.BoneWeights = []int{idx(3)}, []float32{1}
		case 1:
			v.Bones = []int{idx(3), idx(3)}
			w := u.f()
			v.BoneWeights = []float32{w, 1 - w}
		case 2:
			v.Bones = []int{idx(3), idx(3), idx(3), idx(3)}
			v.BoneWeights = []float32{u.f(), u.f(), u.f(), u.f()}
		case 3:
			v.Bones = []int{idx(3), idx(3)}
			w := u.f()
			v.BoneWeights = []float32{w, 1 - w}
			for i := 0; i < 9; i++ {
				v.BoneWeights = append(v.BoneWeights, u.f())
			}
		default:
			return nil, fmt.Errorf("weight type %d at %d", t, u.pos)
		}
		v.EdgeScale = u.f()
		doc.Vertexes = append(doc.Vertexes, v)
	}
	fn := cnt()
	if fn%3 != 0 {
		return nil, fmt.Errorf("face index count %d", fn)
	}
	for n := fn / 3; n > 0; n-- {
		doc.Faces = append(doc.Faces, &mmd.Face{Verts: [3]int{vidx(), vidx(), vidx()}})
	}
	for n := cnt(); n > 0; n-- {
		doc.Textures = append(doc.Textures, text())
	}
	for n := cnt(); n > 0; n-- {
		m := &mmd.Material{Name: text(), NameEn: text(), Color: v4r(), Specular: v3r(), Specularity: u.f(), AColor: v3r()}
		m.Flags = byte(u.u8())
		m.EdgeColor, m.EdgeScale = v4r(), u.f()
		m.TextureID, m.EnvID = idx(1), idx(1)
		m.EnvMode, m.ToonType = byte(u.u8()), byte(u.u8())
		if m.ToonType == 0 {
			m.Toon = idx(1)
		} else {
			m.Toon = u.u8()
		}
		m.Memo, m.Count = text(), u.i32()
		doc.Materials = append(doc.Materials, m)
	}
	for n := cnt(); n > 0; n-- {
		b := &mmd.Bone{Name: text(), NameEn: text(), Pos: v3r(), ParentID: idx(3), Layer: u.i32(), Flags: uint16(u.u16())}
		if b.Flags&1 != 0 {
			b.TailID = idx(3)
		} else {
			b.TailID = -1
			b.TailPos = v3r()
		}
		if b.Flags&0x300 != 0 {
			b.InheritParentID, b.InheritParentInfluence = idx(3), u.f()
		}
		if b.Flags&0x400 != 0 {
			b.FixedAxis = v3r()
		}
		if b.Flags&0x800 != 0 {
			v3r()
			v3r()
		}
		if b.Flags&0x2000 != 0 {
			u.i32()
		}
		if b.Flags&0x20 != 0 {
			b.IK.TargetID, b.IK.Loop, b.IK.LimitRad = idx(3), u.i32(), u.f()
			for k := cnt(); k > 0; k-- {
				l := &mmd.Link{TargetID: idx(3), HasLimit: u.u8() == 1}
				if l.HasLimit {
					l.LimitMin, l.LimitMax = v3r(), v3r()
				}
				b.IK.Links = append(b.IK.Links, l)
			}
		}
		doc.Bones = append(doc.Bones, b)
	}
	for n := cnt(); n > 0; n-- {
		m := &mmd.Morph{Name: text(), NameEn: text(), PanelType: byte(u.u8()), MorphType: byte(u.u8())}
		for k := cnt(); k > 0; k-- {
			switch m.MorphType {
			case 0:
				m.Group = append(m.Group, &mmd.MorphGroup{Target: idx(4), Weight: u.f()})
			case 1:
				m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: vidx(), Offset: v3r()})
			case 3:
				m.UV = append(m.UV, &mmd.MorphUV{Target: vidx(), Value: v4r()})
			case 8:
				m.Material = append(m.Material, &mmd.MorphMaterial{Target: idx(2), Flags: byte(u.u8()), Diffuse: v4r(), Specular: v3r(), Specularity: u.f(),
					Ambient: v3r(), EdgeColor: v4r(), EdgeSize: u.f(), TextureTint: v4r(), EnvironmentTint: v4r(), ToonTint: v4r()})
			default:
				return nil, fmt.Errorf("morph type %d", m.MorphType)
			}
		}
		doc.Morphs = append(doc.Morphs, m)
	}
	for n := cnt(); n > 0; n-- {
		text()
		text()
		u.u8()
		for k := cnt(); k > 0; k-- {
			if u.u8() == 0 {
				idx(3)
			} else {
				idx(4)
			}
		}
	}
	for n := cnt(); n > 0; n-- {
		b := &mmd.RigidBody{Name: text(), NameEn: text(), Bone: idx(3), Group: int(int8(u.u8())), GroupTarget: u.i16(), Shape: uint8(u.u8()),
			Size: v3r(), Position: v3r(), Rotation: v3r(), Mass: u.f(), LinearDamping: u.f(), AngularDamping: u.f(), Restitution: u.f(), Friction: u.f()}
		b.Mode = uint8(u.u8())
		doc.Bodies = append(doc.Bodies, b)
	}
	for n := cnt(); n > 0; n-- {
		j := &mmd.Joint{Name: text(), NameEn: text(), Type: uint8(u.u8()), Body1: idx(5), Body2: idx(5)}
		j.Position, j.Rotation, j.PositionMin, j.PositionMax = v3r(), v3r(), v3r(), v3r()
		j.RotationMin, j.RotationMax, j.LinerSpring, j.AngulerSpring = v3r(), v3r(), v3r(), v3r()
		doc.Joints = append(doc.Joints, j)
	}
	return doc, nil
}

type pmxGen struct {
	verts, faces, texs, mats, bones, morphs, bodies, joints int
	extUV                                                   int
	readerOnly                                              bool // include morph kinds the document model drops
}

func gv3(r *rand.Rand) geom.Vector3 { v := rvec(r); return geom.Vector3{X: v[0], Y: v[1], Z: v[2]} }
func gv4(r *rand.Rand) geom.Vector4 {
	v := rvec(r)
	return geom.Vector4{X: v[0], Y: v[1], Z: v[2], W: v[3]}
}

// pick returns an index in [0,n), biased to the extremes, or -1 if n==0.
func pick(r *rand.Rand, n int) int {
	if n == 0 {
		return -1
	}
	switch r.Intn(6) {
	case 0:
		return n - 1
	case 1:
		return 0
	}
	return r.Intn(n)
}
func pickOrNone(r *rand.Rand, n int) int {
	if n == 0 || r.Intn(5) == 0 {
		return -1
	}
	return pick(r, n)
}

func genPMX(r *rand.Rand, g pmxGen) *mmd.Document {
	d := mmd.NewDocument()
	last := ""
	nm := func() string {
		if r.Intn(10) == 0 {
			return last
		}
		last = rname(r, nameAlphabet, 6)
		return last
	}
	d.Name, d.NameEn, d.Comment, d.CommentEn = nm(), nm(), nm()+"\r\n"+nm(), nm()
	for i := 0; i < g.verts; i++ {
		v := &mmd.Vertex{Pos: gv3(r), Normal: gv3(r), UV: geom.Vector2{X: rf(r), Y: rf(r)}, EdgeScale: rf(r)}
		for k := 0; k < g.extUV; k++ {
			v.ExtUVs = append(v.ExtUVs, gv4(r))
		}
		switch r.Intn(4) {
		case 0:
			v.Bones, v.BoneWeights = []int{pickOrNone(r, g.bones)}, []float32{1}
		case 1:
			w := rweight(r)
			v.Bones, v.BoneWeights = []int{pickOrNone(r, g.bones), pickOrNone(r, g.bones)}, []float32{w, 1 - w}
		case 2:
			for k := 0; k < 4; k++ {
				v.Bones = append(v.Bones, pickOrNone(r, g.bones))
				v.BoneWeights = append(v.BoneWeights, rweight(r))
			}
		case 3:
			w := rweight(r)
			v.Bones, v.BoneWeights = []int{pickOrNone(r, g.bones), pickOrNone(r, g.bones)}, []float32{w, 1 - w}
			for k := 0; k < 9; k++ {
				v.BoneWeights = append(v.BoneWeights, rf(r))
			}
		}
		d.Vertexes = append(d.Vertexes, v)
	}
	if g.verts > 0 {
		for i := 0; i < g.faces; i++ {
			d.Faces = append(d.Faces, &mmd.Face{Verts: [3]int{pick(r, g.verts), pick(r, g.verts), pick(r, g.verts)}})
		}
	}
	for i := 0; i < g.texs; i++ {
		d.Textures = append(d.Textures, "tex\\"+nm()+".png")
	}
	left := len(d.Faces)
	for i := 0; i < g.mats; i++ {
		n := 0
		if i == g.mats-1 {
			n = left
		} else if left > 0 {
			n = r.Intn(left + 1)
		}
		left -= n
		m := &mmd.Material{Name: nm(), NameEn: nm(), Color: gv4(r), Specular: gv3(r), Specularity: rf(r), AColor: gv3(r), Flags: byte(r.Intn(256)),
			EdgeColor: gv4(r), EdgeScale: rf(r), TextureID: pickOrNone(r, g.texs), EnvID: pickOrNone(r, g.texs), EnvMode: byte(r.Intn(4)), ToonType: byte(r.Intn(2)), Memo: nm(), Count: n * 3}
		if m.ToonType == 0 {
			m.Toon = pickOrNone(r, g.texs)
		} else {
			m.Toon = r.Intn(10)
		}
		d.Materials = append(d.Materials, m)
	}
	for i := 0; i < g.bones; i++ {
		b := &mmd.Bone{Name: nm(), NameEn: nm(), Pos: gv3(r), ParentID: pickOrNone(r, g.bones), Layer: r.Intn(5), Flags: uint16(r.Intn(0x10000)) & mmd.BoneFlagAll, TailID: -1}
		if b.Flags&1 != 0 {
			b.TailID = pickOrNone(r, g.bones)
		} else {
			b.TailPos = gv3(r)
		}
		if b.Flags&0x300 != 0 {
			b.InheritParentID, b.InheritParentInfluence = pickOrNone(r, g.bones), rf(r)
		}
		if b.Flags&0x400 != 0 {
			b.FixedAxis = gv3(r)
		}
		if b.Flags&0x20 != 0 {
			b.IK.TargetID, b.IK.Loop, b.IK.LimitRad = pick(r, g.bones), r.Intn(1000), rf(r)
			for k := r.Intn(4); k > 0; k-- {
				l := &mmd.Link{TargetID: pick(r, g.bones), HasLimit: r.Intn(2) == 0}
				if l.HasLimit {
					l.LimitMin, l.LimitMax = gv3(r), gv3(r)
				}
				b.IK.Links = append(b.IK.Links, l)
			}
		}
		d.Bones = append(d.Bones, b)
	}
	for i := 0; i < g.morphs; i++ {
		m := &mmd.Morph{Name: nm(), NameEn: nm(), PanelType: byte(r.Intn(5))}
		kinds := []byte{0, 1, 3, 8}
		if g.readerOnly {
			kinds = []byte{0, 1, 3, 8, 2, 4, 5, 6, 7}
		}
		m.MorphType = kinds[r.Intn(len(kinds))]
		for k := r.Intn(5); k > 0; k-- {
			switch m.MorphType {
			case 0:
				m.Group = append(m.Group, &mmd.MorphGroup{Target: pick(r, g.morphs), Weight: rf(r)})
			case 1:
				if g.verts > 0 {
					m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: pick(r, g.verts), Offset: gv3(r)})
				}
			case 3:
				if g.verts > 0 {
					m.UV = append(m.UV, &mmd.MorphUV{Target: pick(r, g.verts), Value: gv4(r)})
				}
			case 8:
				m.Material = append(m.Material, &mmd.MorphMaterial{Target: pickOrNone(r, g.mats), Flags: byte(r.Intn(2)), Diffuse: gv4(r), Specular: gv3(r), Specularity: rf(r),
					Ambient: gv3(r), EdgeColor: gv4(r), EdgeSize: rf(r), TextureTint: gv4(r), EnvironmentTint: gv4(r), ToonTint: gv4(r)})
			}
		}
		d.Morphs = append(d.Morphs, m)
	}
	for i := 0; i < g.bodies; i++ {
		d.Bodies = append(d.Bodies, &mmd.RigidBody{Name: nm(), NameEn: nm(), Bone: pickOrNone(r, g.bones), Group: r.Intn(16), GroupTarget: int(int16(r.Intn(65536))), Shape: uint8(r.Intn(3)),
			Size: gv3(r), Position: gv3(r), Rotation: gv3(r), Mass: rf(r), LinearDamping: rf(r), AngularDamping: rf(r), Restitution: rf(r), Friction: rf(r), Mode: uint8(r.Intn(3))})
	}
	for i := 0; i < g.joints; i++ {
		d.Joints = append(d.Joints, &mmd.Joint{Name: nm(), NameEn: nm(), Type: uint8(r.Intn(6)), Body1: pickOrNone(r, g.bodies), Body2: pickOrNone(r, g.bodies),
			Position: gv3(r), Rotation: gv3(r), PositionMin: gv3(r), PositionMax: gv3(r), RotationMin: gv3(r), RotationMax: gv3(r), LinerSpring: gv3(r), AngulerSpring: gv3(r)})
	}
	return d
}

func minIdx(n, max1, max2 int) int {
	if n <= max1 {
		return 1
	}
	if n <= max2 {
		return 2
	}
	return 4
}

// randSizes chooses legal index sizes for the document.
func randSizes(r *rand.Rand, d *mmd.Document) (sz [6]int) {
	min := [6]int{minIdx(len(d.Vertexes), 255, 65535), minIdx(len(d.Textures), 127, 32767), minIdx(len(d.Materials), 127, 32767),
		minIdx(len(d.Bones), 127, 32767), minIdx(len(d.Morphs), 127, 32767), minIdx(len(d.Bodies), 127, 32767)}
	for i := range sz {
		for {
			sz[i] = []int{1, 2, 4}[r.Intn(3)]
			if sz[i] >= min[i] {
				break
			}
		}
	}
	return
}

func clonePMX(d *mmd.Document) *mmd.Document {
	// via the independent codec, so that aliasing in the code under test is visible
	sz := [6]int{4, 4, 4, 4, 4, 4}
	ext := 0
	if len(d.Vertexes) > 0 {
		ext = len(d.Vertexes[0].ExtUVs)
	}
	out, err := decPMX(encPMX(d, pmxOpts{sz: sz, extUV: ext}, rand.New(rand.NewSource(1))))
	must(err)
	return out
}
