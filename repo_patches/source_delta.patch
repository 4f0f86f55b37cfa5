From c34df92ba9be47f83ab8e7b3edb8b3488df4b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 001/154] fix: detect gimbal lock of single precision rotation
 matrices

---
 geom/euler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geom/euler.go b/geom/euler.go
index e613db3..7221d8c 100644
--- a/geom/euler.go
+++ b/geom/euler.go
@@ -25,7 +25,7 @@ func NewEulerFromQuaternion(q *Quaternion, order RotationOrder) *EulerAngles {
 }
 
 func NewEulerFromMatrix4(mat *Matrix4, order RotationOrder) *EulerAngles {
-	const eps = 0.00000001
+	const eps = 0.000001 // must be larger than the rounding error of float32 elements
 	m11, m21, m31 := float64(mat[0]), float64(mat[1]), float64(mat[2])
 	m12, m22, m32 := float64(mat[4]), float64(mat[5]), float64(mat[6])
 	m13, m23, m33 := float64(mat[8]), float64(mat[9]), float64(mat[10])
-- 
2.43.0


From 7df8e6537e97d65bfcd2d38c7284e3c724bac897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 002/154] fix: use the area vector of the polygon as its normal
 when triangulating concave faces

---
 geom/utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geom/utils.go b/geom/utils.go
index 5d54cde..4d6dae6 100644
--- a/geom/utils.go
+++ b/geom/utils.go
@@ -36,10 +36,9 @@ func Triangulate(poly []*Vector3) [][3]int {
 	ii := make([]int, len(poly))
 	for i := range poly {
 		ii[i] = i
-		v0 := poly[(i+len(poly)-1)%len(poly)]
 		v1 := poly[i]
 		v2 := poly[(i+1)%len(poly)]
-		n = n.Add(v0.Sub(v1).Cross(v2.Sub(v1)))
+		n = n.Add(v2.Sub(poly[0]).Cross(v1.Sub(poly[0])))
 	}
 	n = n.Normalize()
 
-- 
2.43.0


From f5ebd958273f707e3f13785ddf8766d7489ae1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 003/154] fix: do not cut ears through vertices lying on the
 new edge when triangulating

---
 geom/utils.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/geom/utils.go b/geom/utils.go
index 4d6dae6..ac86c85 100644
--- a/geom/utils.go
+++ b/geom/utils.go
@@ -27,6 +27,16 @@ func IsInTriangle(p, a, b, c *Vector3) bool {
 	return c1.Dot(c2) > 0 && c2.Dot(c3) > 0 && c3.Dot(c1) > 0
 }
 
+// isOnTriangle returns true if p is inside or on the edges of the triangle (excluding its corners).
+func isOnTriangle(p, a, b, c *Vector3) bool {
+	if *p == *a || *p == *b || *p == *c {
+		return false
+	}
+	ab, bc, ca := b.Sub(a), c.Sub(b), a.Sub(c)
+	c1, c2, c3 := ab.Cross(p.Sub(a)), bc.Cross(p.Sub(b)), ca.Cross(p.Sub(c))
+	return c1.Dot(c2) >= 0 && c2.Dot(c3) >= 0 && c3.Dot(c1) >= 0
+}
+
 func Triangulate(poly []*Vector3) [][3]int {
 	var dst [][3]int
 	if len(poly) < 3 {
@@ -53,13 +63,13 @@ func Triangulate(poly []*Vector3) [][3]int {
 			v0 := poly[i0]
 			v1 := poly[i1]
 			v2 := poly[i2]
-			if v0.Sub(v1).Cross(v2.Sub(v1)).Dot(n) >= 0 {
+			if area := v0.Sub(v1).Cross(v2.Sub(v1)).Dot(n); area >= 0 {
 				ok := true
 				var tmp []int
 				tmp = append(tmp, ii[:i]...)
 				tmp = append(tmp, ii[i+1:]...)
 				for _, i := range tmp {
-					if IsInTriangle(poly[i], v0, v1, v2) {
+					if area > 0 && isOnTriangle(poly[i], v0, v1, v2) {
 						ok = false
 						break
 					}
-- 
2.43.0


From 93cd42aae8febf96c559949f171c17e320dfdada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 004/154] fix: return an error for truncated or corrupt mmd
 files instead of exiting or loading garbage

---
 mmd/base_parser.go | 51 +++++++++++++++++++++------
 mmd/pmd_parser.go  | 37 ++++++++++---------
 mmd/pmx_parser.go  | 88 +++++++++++++++++++++-------------------------
 mmd/vmd_parser.go  | 12 ++++---
 4 files changed, 108 insertions(+), 80 deletions(-)

diff --git a/mmd/base_parser.go b/mmd/base_parser.go
index f2896a4..42e2b78 100644
--- a/mmd/base_parser.go
+++ b/mmd/base_parser.go
@@ -2,7 +2,9 @@ package mmd
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
+	"io/ioutil"
 )
 
 type baseParser struct {
@@ -10,68 +12,95 @@ type baseParser struct {
 	err error
 }
 
+// read decodes v. Once an error occurred, all following reads fail with the same error.
 func (p *baseParser) read(v interface{}) error {
-	return binary.Read(p.r, binary.LittleEndian, v)
+	if p.err == nil {
+		p.setError(binary.Read(p.r, binary.LittleEndian, v))
+	}
+	return p.err
+}
+
+func (p *baseParser) setError(err error) {
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	if p.err == nil {
+		p.err = err
+	}
+}
+
+func (p *baseParser) readBytes(n int) []byte {
+	if p.err != nil {
+		return nil
+	}
+	data, err := ioutil.ReadAll(io.LimitReader(p.r, int64(n)))
+	if err == nil && len(data) < n {
+		err = io.ErrUnexpectedEOF
+	}
+	p.setError(err)
+	return data
 }
 
 func (p *baseParser) readUint8() uint8 {
 	var v uint8
-	binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readUint16() uint16 {
 	var v uint16
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readInt() int {
 	var v uint32
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return int(v)
 }
 
 func (p *baseParser) readFloat() float32 {
 	var v float32
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readVUInt(sz byte) int {
 	if sz == 1 {
 		var v uint8
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v uint16
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v uint32
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
+	p.setError(fmt.Errorf("Unsupported index size: %d", sz))
 	return 0
 }
 
 func (p *baseParser) readVInt(sz byte) int {
 	if sz == 1 {
 		var v int8
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v int16
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v int32
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
+	p.setError(fmt.Errorf("Unsupported index size: %d", sz))
 	return 0
 }
diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index fa31023..ce32126 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -22,8 +22,7 @@ func NewPMDParser(r io.Reader) *PMDParser {
 }
 
 func (p *PMDParser) readString(len int) string {
-	b := make([]byte, len)
-	_ = p.read(b)
+	b := p.readBytes(len)
 	utf8Data, _, _ := transform.Bytes(japanese.ShiftJIS.NewDecoder(), bytes.SplitN(b, []byte{0}, 2)[0])
 	return string(utf8Data)
 }
@@ -39,8 +38,7 @@ func (p *PMDParser) readHeader() error {
 	if string(h.Format) != "Pmd" {
 		return fmt.Errorf("Unsupported format")
 	}
-	p.read(&h.Version)
-	return nil
+	return p.read(&h.Version)
 }
 
 func (p *PMDParser) readVertex() *Vertex {
@@ -100,7 +98,7 @@ func (p *PMDParser) readMorph() *Morph {
 	m.Name = p.readString(20)
 	vn := p.readInt()
 	p.read(&m.PanelType)
-	for i := 0; i < vn; i++ {
+	for i := 0; i < vn && p.err == nil; i++ {
 		var mv MorphVertex
 		mv.Target = p.readVInt(4)
 		p.read(&mv.Offset)
@@ -122,27 +120,24 @@ func (p *PMDParser) Parse() (*Document, error) {
 
 	// Vertexes
 	n := p.readInt()
-	model.Vertexes = make([]*Vertex, n)
-	for i := 0; i < n; i++ {
-		model.Vertexes[i] = p.readVertex()
+	for i := 0; i < n && p.err == nil; i++ {
+		model.Vertexes = append(model.Vertexes, p.readVertex())
 	}
 
 	// Faces
 	n = p.readInt()
-	model.Faces = make([]*Face, n/3)
-	for i := 0; i < n/3; i++ {
+	for i := 0; i < n/3 && p.err == nil; i++ {
 		var f Face
 		f.Verts[0] = int(p.readUint16())
 		f.Verts[1] = int(p.readUint16())
 		f.Verts[2] = int(p.readUint16())
-		model.Faces[i] = &f
+		model.Faces = append(model.Faces, &f)
 	}
 
 	// Materials
 	mn := p.readInt()
-	model.Materials = make([]*Material, mn)
-	for i := 0; i < mn; i++ {
-		model.Materials[i] = p.readMaterial(&model, i)
+	for i := 0; i < mn && p.err == nil; i++ {
+		model.Materials = append(model.Materials, p.readMaterial(&model, i))
 	}
 
 	// Bones
@@ -154,8 +149,12 @@ func (p *PMDParser) Parse() (*Document, error) {
 
 	// IK
 	n = int(p.readUint16())
-	for i := 0; i < n; i++ {
-		b := model.Bones[p.readUint16()]
+	for i := 0; i < n && p.err == nil; i++ {
+		bi := int(p.readUint16())
+		if bi >= len(model.Bones) {
+			return nil, fmt.Errorf("Invalid IK bone: %d", bi)
+		}
+		b := model.Bones[bi]
 		b.IK.TargetID = p.readVInt(2)
 		ln := int(p.readUint8())
 		b.IK.Loop = int(p.readUint16())
@@ -173,10 +172,16 @@ func (p *PMDParser) Parse() (*Document, error) {
 		for i := 0; i < n-1; i++ {
 			model.Morphs[i] = p.readMorph()
 			for _, v := range model.Morphs[i].Vertex {
+				if v.Target < 0 || v.Target >= len(base.Vertex) {
+					return nil, fmt.Errorf("Invalid morph target: %d", v.Target)
+				}
 				v.Target = base.Vertex[v.Target].Target
 			}
 		}
 	}
 
+	if p.err != nil {
+		return nil, p.err
+	}
 	return &model, nil
 }
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index fad066a..1569bf6 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -31,15 +31,14 @@ func (p *PMXParser) readUIndex(attrTyp int) int {
 }
 
 func (p *PMXParser) readText() string {
-	len := p.readInt()
-
+	data := p.readBytes(p.readInt())
 	if p.header.Info[AttrStringEncoding] == 0 {
-		utf16data := make([]uint16, len/2)
-		binary.Read(p.r, binary.LittleEndian, &utf16data)
+		utf16data := make([]uint16, len(data)/2)
+		for i := range utf16data {
+			utf16data[i] = binary.LittleEndian.Uint16(data[i*2:])
+		}
 		return string(utf16.Decode(utf16data))
 	}
-	data := make([]byte, len)
-	binary.Read(p.r, binary.LittleEndian, &data)
 	return string(data)
 }
 
@@ -57,24 +56,19 @@ func (p *PMXParser) readHeader() error {
 	p.read(&h.Version)
 	h.Info = make([]byte, p.readUint8())
 	p.read(&h.Info)
-	return nil
+	if p.err == nil && len(h.Info) <= AttrRBIndexSz {
+		return fmt.Errorf("Invalid header")
+	}
+	return p.err
 }
 
 func (p *PMXParser) readVertex() *Vertex {
 	var v Vertex
-	if err := p.read(&v.Pos); err != nil {
-		log.Fatal(err)
-	}
-	if err := p.read(&v.Normal); err != nil {
-		log.Fatal(err)
-	}
-	if err := p.read(&v.UV); err != nil {
-		log.Fatal(err)
-	}
+	p.read(&v.Pos)
+	p.read(&v.Normal)
+	p.read(&v.UV)
 	v.ExtUVs = make([]Vector4, p.header.Info[AttrExtUV])
-	if err := p.read(&v.ExtUVs); err != nil {
-		log.Fatal(err)
-	}
+	p.read(&v.ExtUVs)
 	wehghtType := p.readUint8()
 	if wehghtType == 0 {
 		v.Bones = []int{p.readIndex(AttrBoneIndexSz)}
@@ -103,8 +97,7 @@ func (p *PMXParser) readVertex() *Vertex {
 		v.BoneWeights = weights[:]
 		p.read(weights[2:])
 	} else {
-		log.Println(v)
-		log.Fatal("unknown weight ", wehghtType)
+		p.setError(fmt.Errorf("Unknown weight type: %d", wehghtType))
 	}
 	v.EdgeScale = p.readFloat()
 	return &v
@@ -190,7 +183,7 @@ func (p *PMXParser) readBone() *Bone {
 		b.IK.Loop = p.readInt()
 		b.IK.LimitRad = p.readFloat()
 		links := p.readInt()
-		for i := 0; i < links; i++ {
+		for i := 0; i < links && p.err == nil; i++ {
 			var l Link
 			l.TargetID = p.readIndex(AttrBoneIndexSz)
 			l.HasLimit = p.readUint8() != 0
@@ -213,7 +206,7 @@ func (p *PMXParser) readMorph() *Morph {
 	p.read(&m.MorphType)
 
 	n := p.readInt()
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		switch m.MorphType {
 		case 0:
 			m.Group = append(m.Group, &MorphGroup{
@@ -254,7 +247,7 @@ func (p *PMXParser) readMorph() *Morph {
 			m.Material = append(m.Material, &v)
 			break
 		default:
-			log.Fatal("Unknown morph type ", m.MorphType)
+			p.setError(fmt.Errorf("Unknown morph type: %d", m.MorphType))
 			break
 		}
 	}
@@ -278,7 +271,7 @@ func (p *PMXParser) readDisplayGroup() {
 	d.NameEn = p.readText()
 	d.Flags = p.readUint8()
 	n := p.readInt()
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		t := DisplayTarget{Type: p.readUint8()}
 		if t.Type == 0 {
 			t.Target = p.readIndex(AttrBoneIndexSz)
@@ -350,56 +343,53 @@ func (p *PMXParser) Parse() (*Document, error) {
 	pmx.CommentEn = p.readText()
 
 	vn := p.readInt()
-	pmx.Vertexes = make([]*Vertex, vn)
-	for i := 0; i < vn; i++ {
-		pmx.Vertexes[i] = p.readVertex()
+	for i := 0; i < vn && p.err == nil; i++ {
+		pmx.Vertexes = append(pmx.Vertexes, p.readVertex())
 	}
 
 	fn := p.readInt() / 3
-	pmx.Faces = make([]*Face, fn)
-	for i := 0; i < fn; i++ {
-		pmx.Faces[i] = p.readFace()
+	for i := 0; i < fn && p.err == nil; i++ {
+		pmx.Faces = append(pmx.Faces, p.readFace())
 	}
 
 	tn := p.readInt()
-	pmx.Textures = make([]string, tn)
-	for i := 0; i < tn; i++ {
-		pmx.Textures[i] = p.readText()
+	for i := 0; i < tn && p.err == nil; i++ {
+		pmx.Textures = append(pmx.Textures, p.readText())
 	}
 
 	mn := p.readInt()
-	pmx.Materials = make([]*Material, mn)
-	for i := 0; i < mn; i++ {
-		pmx.Materials[i] = p.readMaterial()
+	for i := 0; i < mn && p.err == nil; i++ {
+		pmx.Materials = append(pmx.Materials, p.readMaterial())
 	}
 
 	bn := p.readInt()
-	pmx.Bones = make([]*Bone, bn)
-	for i := 0; i < bn; i++ {
-		pmx.Bones[i] = p.readBone()
+	for i := 0; i < bn && p.err == nil; i++ {
+		pmx.Bones = append(pmx.Bones, p.readBone())
 	}
 
 	pn := p.readInt()
-	pmx.Morphs = make([]*Morph, pn)
-	for i := 0; i < pn; i++ {
-		pmx.Morphs[i] = p.readMorph()
+	for i := 0; i < pn && p.err == nil; i++ {
+		pmx.Morphs = append(pmx.Morphs, p.readMorph())
 	}
 
 	gn := p.readInt()
-	for i := 0; i < gn; i++ {
+	for i := 0; i < gn && p.err == nil; i++ {
 		p.readDisplayGroup() // TODO
 	}
 
 	rb := p.readInt()
-	for i := 0; i < rb; i++ {
+	for i := 0; i < rb && p.err == nil; i++ {
 		pmx.Bodies = append(pmx.Bodies, p.readRigidBody())
 	}
 
 	jn := p.readInt()
-	for i := 0; i < jn; i++ {
+	for i := 0; i < jn && p.err == nil; i++ {
 		pmx.Joints = append(pmx.Joints, p.readJoint())
 	}
 
+	if p.err != nil {
+		return nil, p.err
+	}
 	return &pmx, nil
 }
 
@@ -407,7 +397,7 @@ func (p *PMXParser) Parse() (*Document, error) {
 func Parse(r io.Reader) (*Document, error) {
 	// check format
 	format := make([]byte, 4)
-	if _, err := r.Read(format[:3]); err != nil {
+	if _, err := io.ReadFull(r, format[:3]); err != nil {
 		return nil, err
 	}
 
@@ -416,7 +406,9 @@ func Parse(r io.Reader) (*Document, error) {
 		p.header = &Header{Format: format[:3]}
 		return p.Parse()
 	}
-	r.Read(format[3:])
+	if _, err := io.ReadFull(r, format[3:]); err != nil {
+		return nil, err
+	}
 	p := NewPMXParser(bufio.NewReader(r))
 	p.header = &Header{Format: format}
 	return p.Parse()
diff --git a/mmd/vmd_parser.go b/mmd/vmd_parser.go
index 8e0755e..0a5d919 100644
--- a/mmd/vmd_parser.go
+++ b/mmd/vmd_parser.go
@@ -120,7 +120,7 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	anim.Name = p.readString(20)
 
 	frames := p.readInt()
-	for i := 0; i < frames; i++ {
+	for i := 0; i < frames && p.err == nil; i++ {
 		sample := &AnimationBoneSample{}
 		sample.Target = p.readString(15)
 		sample.Frame = p.readInt()
@@ -131,7 +131,7 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	}
 
 	frames = p.readInt()
-	for i := 0; i < frames; i++ {
+	for i := 0; i < frames && p.err == nil; i++ {
 		sample := &AnimationMorphSample{}
 		sample.Target = p.readString(15)
 		sample.Frame = p.readInt()
@@ -139,12 +139,14 @@ func (p *VMDParser) Parse() (*Animation, error) {
 		anim.Morph = append(anim.Morph, sample)
 	}
 
-	return &anim, p.err
+	if p.err != nil {
+		return nil, p.err
+	}
+	return &anim, nil
 }
 
 func (p *VMDParser) readString(len int) string {
-	b := make([]byte, len)
-	_ = p.read(b)
+	b := p.readBytes(len)
 	utf8Data, _, _ := transform.Bytes(japanese.ShiftJIS.NewDecoder(), bytes.SplitN(b, []byte{0}, 2)[0])
 	return string(utf8Data)
 }
-- 
2.43.0


From b3649d88883e46b63515b748299c21bf70fbca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:05 +0000
Subject: [PATCH 005/154] fix: the external parent key of a pmx bone is a 32bit
 integer

---
 mmd/pmx_parser.go | 4 ++--
 mmd/pmx_writer.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index 1569bf6..01e70d6 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -174,8 +174,8 @@ func (p *PMXParser) readBone() *Bone {
 	}
 
 	if b.Flags&8192 != 0 {
-		// ??
-		p.readIndex(AttrBoneIndexSz)
+		// external parent key
+		p.readInt()
 	}
 
 	if b.Flags&32 != 0 {
diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index e7de800..c66a233 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -283,8 +283,8 @@ func (w *PMXWriter) writeBone(b *Bone) {
 	}
 
 	if b.Flags&8192 != 0 {
-		// ??
-		w.writeIndex(AttrBoneIndexSz, -1)
+		// external parent key
+		w.writeInt(-1)
 	}
 
 	if b.Flags&32 != 0 {
-- 
2.43.0


From 3bbf04645aa71f9183f36d557bf2de0a8c1ee864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:06 +0000
Subject: [PATCH 006/154] fix: load pmx models with additional UV morphs

---
 mmd/pmx_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index 01e70d6..7d9d6a2 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -231,6 +231,11 @@ func (p *PMXParser) readMorph() *Morph {
 			p.read(&v.Value)
 			m.UV = append(m.UV, &v)
 			break
+		case 4, 5, 6, 7:
+			// TODO: additional UVs
+			p.readUIndex(AttrVertIndexSz)
+			p.read(&Vector4{})
+			break
 		case 8:
 			var v MorphMaterial
 			v.Target = p.readIndex(AttrMatIndexSz)
-- 
2.43.0


From 8e802dc1f6d548882f824ebda237342d118ea811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:06 +0000
Subject: [PATCH 007/154] fix: write rigid body indices of pmx joints with
 their own index size

---
 mmd/pmx_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index c66a233..f5dd8d2 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -368,8 +368,8 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 	w.writeText(j.NameEn)
 	w.writeUint8(j.Type)
 
-	w.writeIndex(AttrBoneIndexSz, j.Body1)
-	w.writeIndex(AttrBoneIndexSz, j.Body2)
+	w.writeIndex(AttrRBIndexSz, j.Body1)
+	w.writeIndex(AttrRBIndexSz, j.Body2)
 
 	w.write(&j.Position)
 	w.write(&j.Rotation)
-- 
2.43.0


From a17129239fc51e3bb0b70d8d1f424b55d1e30275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 008/154] fix: extend pmx index sizes that are too small for
 the model

---
 mmd/pmx_writer.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index f5dd8d2..bf768f7 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -77,6 +77,12 @@ type PMXWriter struct {
 
 func (w *PMXWriter) Write(doc *Document) error {
 	// header
+	w.fixIndexSize(doc.Header, AttrVertIndexSz, len(doc.Vertexes), 255, 65535)
+	w.fixIndexSize(doc.Header, AttrTexIndexSz, len(doc.Textures), 127, 32767)
+	w.fixIndexSize(doc.Header, AttrMatIndexSz, len(doc.Materials), 127, 32767)
+	w.fixIndexSize(doc.Header, AttrBoneIndexSz, len(doc.Bones), 127, 32767)
+	w.fixIndexSize(doc.Header, AttrMorphIndexSz, len(doc.Morphs), 127, 32767)
+	w.fixIndexSize(doc.Header, AttrRBIndexSz, len(doc.Bodies), 127, 32767)
 	w.writeHeader(doc.Header)
 	w.writeText(doc.Name)
 	w.writeText(doc.NameEn)
@@ -150,6 +156,19 @@ func (w *PMXWriter) writeUIndex(attrTyp int, v int) {
 	w.writeVUInt(w.header.Info[attrTyp], v)
 }
 
+// fixIndexSize extends the index size if it is too small for the number of elements.
+func (w *PMXWriter) fixIndexSize(h *Header, attrTyp int, count int, max1, max2 int) {
+	var sz byte = 1
+	if count > max2 {
+		sz = 4
+	} else if count > max1 {
+		sz = 2
+	}
+	if h.Info[attrTyp] < sz {
+		h.Info[attrTyp] = sz
+	}
+}
+
 func (w *PMXWriter) writeHeader(h *Header) {
 	w.header = h
 
-- 
2.43.0


From 16d24696951f770ef168e699f2f0d1082b15da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:42 +0000
Subject: [PATCH 009/154] fix: report write errors when saving pmx

---
 mmd/mmd.go        | 6 +++++-
 mmd/pmx_writer.go | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/mmd/mmd.go b/mmd/mmd.go
index f893a12..316de30 100644
--- a/mmd/mmd.go
+++ b/mmd/mmd.go
@@ -244,5 +244,9 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	return WritePMX(doc, w)
+	if err := WritePMX(doc, w); err != nil {
+		w.Close()
+		return err
+	}
+	return w.Close()
 }
diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index bf768f7..d5da32c 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -1,6 +1,7 @@
 package mmd
 
 import (
+	"bufio"
 	"encoding/binary"
 	"io"
 	"log"
@@ -405,5 +406,9 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 
 // WritePMX writes .pmx data
 func WritePMX(doc *Document, w io.Writer) error {
-	return (&PMXWriter{baseWriter: baseWriter{w}}).Write(doc)
+	bw := bufio.NewWriter(w)
+	if err := (&PMXWriter{baseWriter: baseWriter{bw}}).Write(doc); err != nil {
+		return err
+	}
+	return bw.Flush()
 }
-- 
2.43.0


From 248be4aa9c8172d3955bb7d150bf48ea1cdb989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:44 +0000
Subject: [PATCH 010/154] fix: models loaded from pmd can be saved as pmx

---
 mmd/pmd_parser.go | 2 +-
 mmd/pmx_writer.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index ce32126..3fae856 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -94,7 +94,7 @@ func (p *PMDParser) readBone() *Bone {
 }
 
 func (p *PMDParser) readMorph() *Morph {
-	var m Morph
+	m := Morph{MorphType: 1}
 	m.Name = p.readString(20)
 	vn := p.readInt()
 	p.read(&m.PanelType)
diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index d5da32c..25a4936 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -78,6 +78,9 @@ type PMXWriter struct {
 
 func (w *PMXWriter) Write(doc *Document) error {
 	// header
+	if doc.Header == nil || len(doc.Header.Info) <= AttrRBIndexSz {
+		doc.Header = NewDocument().Header // not a pmx model
+	}
 	w.fixIndexSize(doc.Header, AttrVertIndexSz, len(doc.Vertexes), 255, 65535)
 	w.fixIndexSize(doc.Header, AttrTexIndexSz, len(doc.Textures), 127, 32767)
 	w.fixIndexSize(doc.Header, AttrMatIndexSz, len(doc.Materials), 127, 32767)
-- 
2.43.0


From f1e90f3f2a878ce3a25e45b45c904988585bf817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:56 +0000
Subject: [PATCH 011/154] fix: read negative integers in mqo files

---
 mqo/mqo_parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 8ea4f75..cfb6252 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -71,12 +71,17 @@ func (p *Parser) readFloat() float32 {
 
 func (p *Parser) readInt() int {
 	tok := p.s.Scan()
+	s := 1
+	if p.s.TokenText() == "-" {
+		tok = p.s.Scan()
+		s = -1
+	}
 	if tok != scanner.Int {
 		log.Printf("  Invalid num  %s\n", p.s.TokenText())
 		return 0
 	}
 	n, _ := strconv.Atoi(p.s.TokenText())
-	return n
+	return n * s
 }
 
 func (p *Parser) readStr() string {
-- 
2.43.0


From be0a4733da8a4d07aaa66b78e24c1edb42ca336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:57 +0000
Subject: [PATCH 012/154] fix: load the lock state of mqo objects

---
 mqo/mqo_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index cfb6252..34039ec 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -258,6 +258,7 @@ func (p *Parser) readObject() *Object {
 		"depth":       func() { o.Depth = p.readInt() },
 		"folding":     func() { o.Folding = p.readInt() > 0 },
 		"visible":     func() { o.Visible = p.readInt() > 0 },
+		"locking":     func() { o.Locked = p.readInt() > 0 },
 		"shading":     func() { o.Shading = p.readInt() },
 		"facet":       func() { o.Facet = p.readFloat() },
 		"patch":       func() { o.Patch = p.readInt() },
-- 
2.43.0


From 3c012e10b6dc034ef4076472a07dbffe03479218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:58 +0000
Subject: [PATCH 013/154] fix: save the emission color of mqo materials

---
 mqo/mqo_writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 93c93c6..9f17ca9 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -85,6 +85,9 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 		fmt.Fprintf(w, " col(%.3f %.3f %.3f %.3f) dif(%.3f) amb(%.3f) emi(%.3f) spc(%.3f) power(%.2f)",
 			mat.Color.X, mat.Color.Y, mat.Color.Z, mat.Color.W,
 			mat.Diffuse, mat.Ambient, mat.Emission, mat.Specular, mat.Power)
+		if mat.EmissionColor != nil {
+			fmt.Fprintf(w, " emi_col(%.3f %.3f %.3f)", mat.EmissionColor.X, mat.EmissionColor.Y, mat.EmissionColor.Z)
+		}
 		if mat.Texture != "" {
 			fmt.Fprintf(w, " tex(\"%v\")", strings.Replace(mat.Texture, "\\", "/", -1))
 		}
-- 
2.43.0


From 839e45547402c3f133af52be8a64d3c1cb6aedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:59 +0000
Subject: [PATCH 014/154] fix: save all kinds of shader parameters and mappings
 of mqo materials in a stable order

---
 mqo/mqo_writer.go | 60 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 9f17ca9..c96bc7c 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 )
 
@@ -32,6 +33,32 @@ func boolToInt(b bool) int {
 	return 0
 }
 
+func writeShaderParams(w io.Writer, params map[string]interface{}) {
+	var names []string
+	for name := range params {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		v := params[name]
+		typ := "int"
+		switch value := v.(type) {
+		case bool:
+			typ = "bool"
+			v = boolToInt(value)
+		case float32, float64:
+			typ = "float"
+		case []float32:
+			typ = "color"
+			v = strings.Trim(fmt.Sprint(value), "[]")
+		case string:
+			typ = "string"
+			v = "\"" + strings.Replace(value, "\\", "/", -1) + "\""
+		}
+		fmt.Fprintf(w, "\t\t\t%v %v %v\n", name, typ, v)
+	}
+}
+
 func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 	w := bufio.NewWriter(ww)
 	w.WriteString("Metasequoia Document\n")
@@ -116,19 +143,30 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			fmt.Fprintf(w, "\t\tshadertype \"%v\"\n", mat.Ex2.ShaderType)
 			fmt.Fprintf(w, "\t\tshadername \"%v\"\n", mat.Ex2.ShaderName)
 			fmt.Fprintf(w, "\t\tshaderparam %v {\n", len(mat.Ex2.ShaderParams))
-			for name, v := range mat.Ex2.ShaderParams {
-				typ := "int"
-				if b, ok := v.(bool); ok {
-					typ = "bool"
-					v = boolToInt(b)
-				} else if _, ok := v.(float64); ok {
-					typ = "float"
-				} else if _, ok := v.(float32); ok {
-					typ = "float"
+			writeShaderParams(w, mat.Ex2.ShaderParams)
+			w.WriteString("\t\t}\n")
+			if len(mat.Ex2.ShaderMapping) > 0 {
+				var names []string
+				for name := range mat.Ex2.ShaderMapping {
+					names = append(names, name)
+				}
+				sort.Strings(names)
+				fmt.Fprintf(w, "\t\tshadermapping %v {\n", len(names))
+				for _, name := range names {
+					fmt.Fprintf(w, "\t\t\t%v \"%v\"\n", name, strings.Replace(mat.Ex2.ShaderMapping[name], "\\", "/", -1))
 				}
-				fmt.Fprintf(w, "\t\t\t%v %v %v\n", name, typ, v)
+				w.WriteString("\t\t}\n")
+			}
+			var names []string
+			for name := range mat.Ex2.ShaderMappingParams {
+				names = append(names, name)
+			}
+			sort.Strings(names)
+			for _, name := range names {
+				fmt.Fprintf(w, "\t\tshadermappingparam \"%v\" %v {\n", name, len(mat.Ex2.ShaderMappingParams[name]))
+				writeShaderParams(w, mat.Ex2.ShaderMappingParams[name])
+				w.WriteString("\t\t}\n")
 			}
-			w.WriteString("\t\t}\n")
 			w.WriteString("\t}\n")
 		}
 		w.WriteString("}\n")
-- 
2.43.0


From 083c85f3e106bed5229f86194439957aef340cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 015/154] fix: report errors when saving mqo, mqoz and mqx
 files

---
 mqo/mqo_writer.go | 33 ++++++++++++++++++++++++++-------
 mqo/mqx_writer.go | 13 +++++++++----
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index c96bc7c..cf83763 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -273,12 +273,20 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 	}
 
 	w.WriteString("Eof\n")
-	w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
 
 	if mqxFile != "" && writer.Create != nil {
-		w, _ := writer.Create(mqxFile)
-		defer w.Close()
-		WriteMQX(mqo, w, filepath.Base(writer.path))
+		w, err := writer.Create(mqxFile)
+		if err != nil {
+			return err
+		}
+		if err := WriteMQX(mqo, w, filepath.Base(writer.path)); err != nil {
+			w.Close()
+			return err
+		}
+		return w.Close()
 	}
 
 	return nil
@@ -293,9 +301,11 @@ func SaveMQOZ(doc *Document, path string) error {
 	}
 	defer w.Close()
 	zw := zip.NewWriter(w)
-	defer zw.Close()
 
 	mqow, err := zw.Create(name + ".mqo")
+	if err != nil {
+		return err
+	}
 	writer := NewWriter(path)
 	writer.Create = func(name string) (io.WriteCloser, error) {
 		w, err := zw.Create(name)
@@ -304,7 +314,13 @@ func SaveMQOZ(doc *Document, path string) error {
 			io.Closer
 		}{w, io.NopCloser(nil)}, err
 	}
-	return writer.WriteMQO(doc, mqow)
+	if err := writer.WriteMQO(doc, mqow); err != nil {
+		return err
+	}
+	if err := zw.Close(); err != nil {
+		return err
+	}
+	return w.Close()
 }
 
 func Save(doc *Document, path string) error {
@@ -317,5 +333,8 @@ func Save(doc *Document, path string) error {
 	}
 	defer w.Close()
 	doc.FixNames()
-	return NewWriter(path).WriteMQO(doc, w)
+	if err := NewWriter(path).WriteMQO(doc, w); err != nil {
+		return err
+	}
+	return w.Close()
 }
diff --git a/mqo/mqx_writer.go b/mqo/mqx_writer.go
index 2ef14ed..4de21e6 100644
--- a/mqo/mqx_writer.go
+++ b/mqo/mqx_writer.go
@@ -18,8 +18,13 @@ func WriteMQX(mqo *Document, w io.Writer, mqoName string) error {
 		p.PreSerialize(mqo)
 	}
 
-	xmlBuf, _ := xml.MarshalIndent(mqx, "", "    ")
-	w.Write([]byte(xml.Header))
-	w.Write(xmlBuf)
-	return nil
+	xmlBuf, err := xml.MarshalIndent(mqx, "", "    ")
+	if err != nil {
+		return err
+	}
+	if _, err := w.Write([]byte(xml.Header)); err != nil {
+		return err
+	}
+	_, err = w.Write(xmlBuf)
+	return err
 }
-- 
2.43.0


From 6348ed9f52619dd907714eb2db176304ef3222af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:02 +0000
Subject: [PATCH 016/154] fix: make names unique when saving mqoz

---
 mqo/mqo_writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index cf83763..1f76036 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -301,6 +301,7 @@ func SaveMQOZ(doc *Document, path string) error {
 	}
 	defer w.Close()
 	zw := zip.NewWriter(w)
+	doc.FixNames()
 
 	mqow, err := zw.Create(name + ".mqo")
 	if err != nil {
-- 
2.43.0


From 75e0f08289e0199fa9c7c005db0b195bb4a9cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:03 +0000
Subject: [PATCH 017/154] fix: accept upper case .MQOZ file names

---
 mqo/mqo_parser.go | 2 +-
 mqo/mqo_writer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 34039ec..e8ae251 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -433,7 +433,7 @@ func LoadMQOZ(path string) (*Document, error) {
 }
 
 func Load(path string) (*Document, error) {
-	if strings.HasSuffix(path, ".mqoz") {
+	if strings.HasSuffix(strings.ToLower(path), ".mqoz") {
 		return LoadMQOZ(path)
 	}
 	r, err := os.Open(path)
diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 1f76036..bc1aa07 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -325,7 +325,7 @@ func SaveMQOZ(doc *Document, path string) error {
 }
 
 func Save(doc *Document, path string) error {
-	if strings.HasSuffix(path, ".mqoz") {
+	if strings.HasSuffix(strings.ToLower(path), ".mqoz") {
 		return SaveMQOZ(doc, path)
 	}
 	w, err := os.Create(path)
-- 
2.43.0


From 4381c0da2cbd1a60781b3010eb793371beb37037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:04 +0000
Subject: [PATCH 018/154] fix: load physics parameters from mqx

---
 mqo/mqx_parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqo/mqx_parser.go b/mqo/mqx_parser.go
index 5b39d88..4de88cd 100644
--- a/mqo/mqx_parser.go
+++ b/mqo/mqx_parser.go
@@ -8,8 +8,9 @@ import (
 func ReadMQX(r io.Reader) (*MQXDoc, error) {
 	var data struct {
 		MQXDoc
-		BonePlugin  *BonePlugin
-		MorphPlugin *MorphPlugin
+		BonePlugin    *BonePlugin
+		MorphPlugin   *MorphPlugin
+		PhysicsPlugin *PhysicsPlugin
 	}
 	err := xml.NewDecoder(r).Decode(&data)
 	doc := data.MQXDoc
@@ -19,6 +20,9 @@ func ReadMQX(r io.Reader) (*MQXDoc, error) {
 	if data.MorphPlugin != nil {
 		doc.Plugins = append(doc.Plugins, data.MorphPlugin)
 	}
+	if data.PhysicsPlugin != nil {
+		doc.Plugins = append(doc.Plugins, data.PhysicsPlugin)
+	}
 	for _, p := range doc.Plugins {
 		p.PostDeserialize(nil)
 	}
-- 
2.43.0


From bc459f0363d5bac3d4a6a356d3704162a1234e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:05 +0000
Subject: [PATCH 019/154] fix: do not repeat the object list of the bone plugin
 on every save

---
 mqo/bone_plugin.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index 64c6d3e..6871a0c 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -222,6 +222,7 @@ func (p *BonePlugin) PreSerialize(mqo *Document) {
 		}
 	}
 
+	p.Obj = nil
 	for i, o := range mqo.Objects {
 		id := o.UID
 		if id <= 0 {
-- 
2.43.0


From bde520c64de039721a3789a33bca2dd6e813f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:06 +0000
Subject: [PATCH 020/154] fix: use the same rotation order to set and get the
 rotation of an object

---
 mqo/mqo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 9ed9d77..3b7e4ae 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -286,8 +286,7 @@ func NewObject(name string) *Object {
 }
 
 func (o *Object) SetRotation(r *geom.Quaternion) {
-	// RotationOrderYXZ?
-	o.Rotation = geom.NewEulerFromQuaternion(r, geom.RotationOrderZXY).Vector3.Scale(180 / math.Pi)
+	o.Rotation = geom.NewEulerFromQuaternion(r, geom.RotationOrderYXZ).Vector3.Scale(180 / math.Pi)
 }
 
 func (o *Object) GetRotation() *geom.Quaternion {
-- 
2.43.0


From 0edc9055dc8f7905168f9ec8c11f676b5599036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:15 +0000
Subject: [PATCH 021/154] fix: read mqo files whose first read is short

---
 mqo/mqo_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index e8ae251..fbf17d6 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -335,7 +335,7 @@ func (p *Parser) readObject() *Object {
 
 func (p *Parser) detectCodePage() {
 	buf := make([]byte, 128)
-	n, _ := p.r.Read(buf)
+	n, _ := io.ReadFull(p.r, buf)
 	p.r = io.MultiReader(bytes.NewReader(buf[:n]), p.r)
 	if matched, _ := regexp.Match(`CodePage\s+utf8`, buf[:n]); !matched {
 		p.r = transform.NewReader(p.r, transform.Chain(japanese.ShiftJIS.NewDecoder(), &basckSlashReplacer{}))
-- 
2.43.0


From 3f4efa4877f0045b254716eb1776494b1baa29af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:17 +0000
Subject: [PATCH 022/154] fix: read paths with backslashes in utf8 mqo files

---
 mqo/mqo_parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index fbf17d6..0697393 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -49,7 +49,10 @@ func (*basckSlashReplacer) Transform(dst, src []byte, atEOF bool) (nDst, nSrc in
 			dst[i] = '/'
 		}
 	}
-	return n, n, nil
+	if n < len(src) {
+		err = transform.ErrShortDst
+	}
+	return n, n, err
 }
 
 func (*basckSlashReplacer) Reset() {
@@ -338,8 +341,9 @@ func (p *Parser) detectCodePage() {
 	n, _ := io.ReadFull(p.r, buf)
 	p.r = io.MultiReader(bytes.NewReader(buf[:n]), p.r)
 	if matched, _ := regexp.Match(`CodePage\s+utf8`, buf[:n]); !matched {
-		p.r = transform.NewReader(p.r, transform.Chain(japanese.ShiftJIS.NewDecoder(), &basckSlashReplacer{}))
+		p.r = transform.NewReader(p.r, japanese.ShiftJIS.NewDecoder())
 	}
+	p.r = transform.NewReader(p.r, &basckSlashReplacer{})
 }
 
 func (p *Parser) Parse() (*Document, error) {
-- 
2.43.0


From 19ba13575bb2c0d8349a6cde1b923611d493957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:18 +0000
Subject: [PATCH 023/154] fix: return an error for truncated or corrupt mqo
 files instead of crashing

---
 mqo/mqo_parser.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 0697393..e587b29 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -152,6 +152,10 @@ func (p *Parser) procArray(init, elem func(n int), name string) {
 	p.skip("{")
 	init(n)
 	for i := 0; i < n; i++ {
+		if p.s.Peek() == scanner.EOF {
+			p.s.ErrorCount++ // unexpected EOF
+			return
+		}
 		elem(i)
 	}
 	p.skip("}")
@@ -170,6 +174,9 @@ func (p *Parser) procObj(handlers map[string]func(), name string) {
 			handler()
 		}
 	}
+	if p.s.TokenText() != "}" {
+		p.s.ErrorCount++ // unexpected EOF
+	}
 }
 
 func (p *Parser) readMaterial() *Material {
@@ -274,46 +281,44 @@ func (p *Parser) readObject() *Object {
 		"color":       func() { o.Color = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()} },
 		"vertex": func() {
 			p.procArray(func(n int) {
-				o.Vertexes = make([]*Vector3, n)
+				o.Vertexes = nil
 			}, func(i int) {
-				o.Vertexes[i] = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()}
+				o.Vertexes = append(o.Vertexes, &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()})
 			}, "vertex")
 		},
 		"face": func() {
 			p.procArray(func(n int) {
-				o.Faces = make([]*Face, n)
+				o.Faces = nil
 			}, func(i int) {
 				var f Face
-				o.Faces[i] = &f
+				o.Faces = append(o.Faces, &f)
 				vn := p.readInt()
 				p.procAttrs(map[string]func(){
 					"V": func() {
-						f.Verts = make([]int, vn)
-						for i := 0; i < vn; i++ {
-							f.Verts[i] = p.readInt()
+						for i := 0; i < vn && p.s.Peek() != scanner.EOF; i++ {
+							f.Verts = append(f.Verts, p.readInt())
 						}
 					},
 					"M": func() { f.Material = p.readInt() },
 					"UV": func() {
-						f.UVs = make([]Vector2, vn)
-						for i := 0; i < vn; i++ {
-							f.UVs[i] = Vector2{X: p.readFloat(), Y: p.readFloat()}
+						for i := 0; i < vn && p.s.Peek() != scanner.EOF; i++ {
+							f.UVs = append(f.UVs, Vector2{X: p.readFloat(), Y: p.readFloat()})
 						}
 					},
 					"N": func() {
-						flags := make([]int, vn)
-						f.Normals = make([]*Vector3, vn)
-						for i := 0; i < vn; i++ {
-							flags[i] = p.readInt()
+						var flags []int
+						for i := 0; i < vn && p.s.Peek() != scanner.EOF; i++ {
+							flags = append(flags, p.readInt())
 						}
-						for i := 0; i < vn; i++ {
+						f.Normals = make([]*Vector3, len(flags))
+						for i := range flags {
 							if flags[i]&2 != 0 {
 								f.Normals[i] = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()}
 							}
 						}
 					},
 					"CRS": func() {
-						for i := 0; i < vn; i++ {
+						for i := 0; i < vn && p.s.Peek() != scanner.EOF; i++ {
 							p.readFloat()
 						}
 					},
-- 
2.43.0


From 649c254f300d93b3bae08b5ebdb8b6bc8a1374fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:19 +0000
Subject: [PATCH 024/154] fix: complete partially specified face normals

---
 mqo/utils.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mqo/utils.go b/mqo/utils.go
index 1de0fd7..277f868 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -65,14 +65,16 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 func (obj *Object) FixhNormals() {
 	var normals []Vector3
 	for _, f := range obj.Faces {
-		if len(f.Normals) == len(f.Verts) {
-			continue
-		}
-		if normals == nil {
-			normals = obj.GetSmoothNormals()
+		if len(f.Normals) != len(f.Verts) {
+			f.Normals = make([]*Vector3, len(f.Verts))
 		}
-		f.Normals = make([]*Vector3, len(f.Verts))
 		for i, v := range f.Verts {
+			if f.Normals[i] != nil {
+				continue
+			}
+			if normals == nil {
+				normals = obj.GetSmoothNormals()
+			}
 			f.Normals[i] = &normals[v]
 		}
 	}
-- 
2.43.0


From 7b89c58be9dbd0ecc2ad20e898d07baffa10e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:20 +0000
Subject: [PATCH 025/154] fix: ignore material morphs of missing materials

---
 mqo/morph_plugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/morph_plugin.go b/mqo/morph_plugin.go
index d601695..dece800 100644
--- a/mqo/morph_plugin.go
+++ b/mqo/morph_plugin.go
@@ -68,7 +68,7 @@ func (p *MorphPlugin) ApplyMaterialMorph(doc *Document, name string, value float
 	for _, m := range doc.Materials {
 		if strings.HasPrefix(m.Name, morphPrefix) {
 			t := matByID[m.Name[len(morphPrefix):]]
-			if m == nil {
+			if t == nil {
 				continue
 			}
 			t.Color = *t.Color.Scale(1 - value).Add(m.Color.Scale(value))
-- 
2.43.0


From 5daf3ffc5a3d5a12feeb0f6cf557de7110873edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:21 +0000
Subject: [PATCH 026/154] fix: accumulate world transforms of nested mqo
 objects

---
 mqo/mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 3b7e4ae..5f9d69c 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -51,7 +51,7 @@ func (doc *Document) GetWorldTransforms() map[*Object]*Matrix4 {
 	dt := []*Matrix4{geom.NewMatrix4()}
 
 	for _, o := range doc.Objects {
-		for len(dd) > 1 && dd[len(dd)-1] <= o.Depth {
+		for len(dd) > 1 && dd[len(dd)-1] >= o.Depth {
 			dd = dd[:len(dd)-1]
 			dt = dt[:len(dt)-1]
 		}
-- 
2.43.0


From 75ce6a0e53959492a37d56919c0afede174f4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:23 +0000
Subject: [PATCH 027/154] fix: transform only the root of nested mqo objects

---
 mqo/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mqo/utils.go b/mqo/utils.go
index 277f868..fba3a72 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -29,8 +29,13 @@ func (o *Object) ApplyTransform(transform *Matrix4) {
 
 // Transform all objects and plugins
 func (doc *Document) ApplyTransform(transform *Matrix4) {
-	for _, o := range doc.Objects {
-		o.SetLocalTransform(transform.Mul(o.GetLocalTransform()))
+	rootDepth := 0
+	for i, o := range doc.Objects {
+		// local transforms of nested objects are relative to the parent
+		if i == 0 || o.Depth <= rootDepth {
+			rootDepth = o.Depth
+			o.SetLocalTransform(transform.Mul(o.GetLocalTransform()))
+		}
 		o.ApplyTransform(transform)
 	}
 	for _, p := range doc.Plugins {
-- 
2.43.0


From 9ff2174e01726ac52bdc112be8052e0bca670a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:24 +0000
Subject: [PATCH 028/154] fix: pose all descendants of a bone in a stable order
 and ignore unknown vertexes

---
 mqo/bone_plugin.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index 6871a0c..03311f3 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -252,11 +252,14 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 	}
 	boneFn(baseBone)
 
-	// broken if bone.Parent > bone.ID ...
-	for _, b := range bones {
-		if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {
-			boneFn(b)
-			targetBones[b] = true
+	for updated := true; updated; {
+		updated = false
+		for _, b := range bones {
+			if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {
+				boneFn(b)
+				targetBones[b] = true
+				updated = true
+			}
 		}
 	}
 
@@ -275,7 +278,10 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 	}
 
 	verts := map[*Vector3]float32{}
-	for b := range targetBones {
+	for _, b := range bones {
+		if !targetBones[b] {
+			continue
+		}
 		verts[&b.Pos.Vector3] = 1
 		for _, bw := range b.Weights {
 			objectIDs := append(morphObjs[bw.ObjectID], bw.ObjectID)
@@ -286,8 +292,9 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 				}
 				for _, vw := range bw.Vertexes {
 					w := vw.Weight / 100
-					v := obj.Vertexes[obj.GetVertexIndexByID(vw.VertexID)]
-					verts[v] += w
+					if vi := obj.GetVertexIndexByID(vw.VertexID); vi >= 0 {
+						verts[obj.Vertexes[vi]] += w
+					}
 				}
 			}
 		}
-- 
2.43.0


From b8c7f0111ea84bc311b6e51a7eb4d0697ceaab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:45 +0000
Subject: [PATCH 029/154] fix: accept trailing spaces after the attributes of
 mqo faces and materials

---
 mqo/mqo_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index e587b29..8d88c92 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -126,6 +126,9 @@ func (p *Parser) procAttrs(handlers map[string]func(), name string) {
 				}
 			}
 		}
+		for p.s.Peek() == ' ' || p.s.Peek() == '\t' {
+			p.s.Next()
+		}
 		if p.s.Peek() == 0x0d || p.s.Peek() == 0x0a {
 			break
 		}
-- 
2.43.0


From 82f07179dc59d2f53affd9f3565223842f798aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:42 +0000
Subject: [PATCH 030/154] fix: transform the positions of physics joints

---
 mqo/physics_plugin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/physics_plugin.go b/mqo/physics_plugin.go
index 30ce287..cd769a6 100644
--- a/mqo/physics_plugin.go
+++ b/mqo/physics_plugin.go
@@ -99,4 +99,7 @@ func (p *PhysicsPlugin) ApplyTransform(transform *Matrix4) {
 			s.Size.X, s.Size.Y, s.Size.Z = geom.Abs(s.Size.X*scale.X), geom.Abs(s.Size.Y*scale.Y), geom.Abs(s.Size.Z*scale.Z)
 		}
 	}
+	for _, c := range p.Constraints {
+		c.Position = Vector3XmlAttr(*transform.ApplyTo(c.Position.Vec3()))
+	}
 }
-- 
2.43.0


From edbc30ceedf247addf4d17fd3280d189276fadea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:12 +0000
Subject: [PATCH 031/154] fix: accept nil options in the mmd to mqo converter

---
 converter/mmd2mqo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index d447620..ae6c9c3 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -19,6 +19,9 @@ type mmdToMQO struct {
 }
 
 func NewMMDToMQOConverter(options *MMDToMQOOption) *mmdToMQO {
+	if options == nil {
+		options = &MMDToMQOOption{}
+	}
 	return &mmdToMQO{MMDToMQOOption: *options}
 }
 
-- 
2.43.0


From 1843ae97e9e377a1caedf5b1854c36fcfc852e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:13 +0000
Subject: [PATCH 032/154] fix: convert bone weights of morph objects like those
 of other objects and in a stable order

---
 converter/mmd2mqo.go | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index ae6c9c3..7b8e0d8 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -120,11 +120,15 @@ func (c *mmdToMQO) convertFaces(pmx *mmd.Document, faces []int, face2mat []int,
 }
 
 func (c *mmdToMQO) setWeight(pmx *mmd.Document, bones []*mqo.Bone, objid int, vmap map[int]int) {
+	vertexes := make([]int, len(vmap))
 	for pmv, mqv := range vmap {
+		vertexes[mqv] = pmv
+	}
+	for mqv, pmv := range vertexes {
 		v := pmx.Vertexes[pmv]
 		c := map[int]*mqo.VertexWeight{}
 		for bi, b := range v.Bones {
-			if v.BoneWeights[bi] > 0 {
+			if v.BoneWeights[bi] > 0 && b >= 0 && b < len(bones) {
 				if c[b] != nil {
 					c[b].Weight += 100 * v.BoneWeights[bi]
 					continue
@@ -285,20 +289,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 		morphTargets.Base = o.Name
 		vmap := map[int]int{}
 		c.convertFaces(pmx, faces, face2mat, o, vmap)
-		for pmv, mqv := range vmap {
-			v := pmx.Vertexes[pmv]
-			c := map[int]*mqo.VertexWeight{}
-			for bi, b := range v.Bones {
-				if v.BoneWeights[bi] > 0 {
-					if c[b] != nil {
-						c[b].Weight += v.BoneWeights[bi]
-						continue
-					}
-					c[b] = bones[b].SetVertexWeight(len(mq.Objects)+1, mqv+1, 100*v.BoneWeights[bi])
-				}
-			}
-		}
-
+		c.setWeight(pmx, bones, len(mq.Objects)+1, vmap)
 		mq.Objects = append(mq.Objects, o)
 		base := o
 
-- 
2.43.0


From 3827fba86dfc0cf3f6a01271ebb5e6a7aa5646d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:14 +0000
Subject: [PATCH 033/154] fix: ignore morphs of vertexes without faces

---
 converter/mmd2mqo.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 7b8e0d8..70d44cb 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -301,7 +301,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			o.Visible = false
 			morphTargets.Target = append(morphTargets.Target, &mqo.MorphTarget{Name: o.Name})
 			for _, mv := range morph.Vertex {
-				v := o.Vertexes[vmap[mv.Target]]
+				vi, ok := vmap[mv.Target]
+				if !ok {
+					continue
+				}
+				v := o.Vertexes[vi]
 				v.X += mv.Offset.X
 				v.Y += mv.Offset.Y
 				v.Z += mv.Offset.Z * -1
@@ -314,10 +318,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			}
 
 			for _, mu := range morph.UV {
-				if mu.Target < 0 {
+				vi, ok := vmap[mu.Target]
+				if !ok {
 					continue
 				}
-				for _, fv := range vertToFV[vmap[mu.Target]] {
+				for _, fv := range vertToFV[vi] {
 					uv := &o.Faces[fv[0]].UVs[fv[1]]
 					uv.X += mu.Value.X
 					uv.Y += mu.Value.Y
-- 
2.43.0


From b76b358a20f034c9e808c5140d17f70e9b23ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:15 +0000
Subject: [PATCH 034/154] fix: convert mmd bones without inherit parent or IK
 target

---
 converter/mmd2mqo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 70d44cb..a1352f0 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -65,7 +65,7 @@ func (c *mmdToMQO) convertBones(pmx *mmd.Document) []*mqo.Bone {
 		}
 		if pmBone.Flags&mmd.BoneFlagInheritRotation > 0 &&
 			pmBone.InheritParentInfluence > c.InheritParentThreshold &&
-			len(pmx.Bones) > pmBone.InheritParentID {
+			pmBone.InheritParentID >= 0 && len(pmx.Bones) > pmBone.InheritParentID {
 			for _, n := range c.KnownBoneNames {
 				if n == pmx.Bones[pmBone.InheritParentID].Name {
 					mqBone.Parent = pmBone.InheritParentID + 1
@@ -80,7 +80,7 @@ func (c *mmdToMQO) convertBones(pmx *mmd.Document) []*mqo.Bone {
 	}
 
 	for _, pmBone := range pmx.Bones {
-		if len(pmBone.IK.Links) > 0 {
+		if len(pmBone.IK.Links) > 0 && pmBone.IK.TargetID >= 0 && pmBone.IK.TargetID < len(bones) {
 			var tipName string
 			if pmBone.TailID > 0 && pmBone.TailID < len(pmx.Bones) {
 				tipName = pmx.Bones[pmBone.TailID].Name
-- 
2.43.0


From c84ca3c0c7e39e4c6596d9e3911cc1d0121193c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:16 +0000
Subject: [PATCH 035/154] fix: keep the size of rigid bodies positive when
 converting between mmd and mqo

---
 converter/mmd2mqo.go | 2 +-
 converter/mqo2mmd.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index a1352f0..189f583 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -371,7 +371,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 				Name: b.Name,
 				Shapes: []*mqo.PhysicsShape{{
 					Type:     shapeType,
-					Size:     mqo.Vector3XmlAttr(*c.convertVec3(&b.Size)),
+					Size:     mqo.Vector3XmlAttr(b.Size),
 					Position: mqo.Vector3XmlAttr(*c.convertVec3(&b.Position)),
 					Rotation: mqo.Vector3XmlAttr(b.Rotation),
 				}},
diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ec5a9ac..ae247cd 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -192,7 +192,7 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 			Name:  b.Name,
 			Shape: shapeType,
 
-			Size:           *c.convertVec3(shape.Size.Vec3()),
+			Size:           *shape.Size.Vec3().Scale(c.Scale),
 			Position:       *c.convertVec3(shape.Position.Vec3()),
 			Rotation:       mmd.Vector3(shape.Rotation),
 			Mass:           b.Mass,
-- 
2.43.0


From a592e95181fcd08dd18e65c514c8fadfeb0a7fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:17 +0000
Subject: [PATCH 036/154] fix: keep the depth of morphs when converting mqo to
 mmd

---
 converter/mqo2mmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ae247cd..f7d55d8 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -94,11 +94,11 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 						if morphBases[obj.Name] != nil {
 							for _, t := range morphBases[obj.Name].Target {
 								if target, ok := objectByName[t.Name]; ok {
-									if v < len(target.Vertexes) && target.Vertexes[v] != obj.Vertexes[v] {
+									if v < len(target.Vertexes) && *target.Vertexes[v] != *obj.Vertexes[v] {
 										p := c.convertVec3(target.Vertexes[v])
 										morphTargets[t.Name].Vertex = append(morphTargets[t.Name].Vertex, &mmd.MorphVertex{
 											Target: verts[i],
-											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y},
+											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y, Z: p.Z - vert.Pos.Z},
 										})
 									}
 								}
-- 
2.43.0


From 6fccf355f87703eb011d39eb2377576ec33dff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:18 +0000
Subject: [PATCH 037/154] fix: mirror normals like positions when converting
 mqo to mmd

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index f7d55d8..ca7f6e8 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -87,7 +87,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 						vert := &mmd.Vertex{
 							Pos:       *c.convertVec3(obj.Vertexes[v]),
 							UV:        mmd.Vector2{X: uv.X, Y: uv.Y},
-							Normal:    mmd.Vector3{X: normals[v].X, Y: normals[v].Y, Z: normals[v].Z},
+							Normal:    mmd.Vector3{X: normals[v].X, Y: normals[v].Y, Z: normals[v].Z * -1},
 							EdgeScale: 1,
 						}
 						dst.Vertexes = append(dst.Vertexes, vert)
-- 
2.43.0


From 34b40c4fa44a4e5b58a2c354ed080e7773ef2aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:19 +0000
Subject: [PATCH 038/154] fix: keep the kind of rigid bodies when converting
 mqo to mmd

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ca7f6e8..15ccfcd 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -207,7 +207,7 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 		if i > 0 {
 			body.Name += "_" + fmt.Sprint(i)
 		}
-		if b.Kinematic {
+		if !b.Kinematic {
 			body.Mode = 1
 		}
 		bodies = append(bodies, body)
-- 
2.43.0


From 217ce546925d579c68abe1f66ea15fe6bd49edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:20 +0000
Subject: [PATCH 039/154] fix: rigid bodies and bones that refer to no bone do
 not use the first bone

---
 converter/mqo2mmd.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 15ccfcd..5c86a08 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -25,7 +25,10 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 	}
 	for i, b := range bones {
 		if b.Parent > 0 {
-			parentID := boneIndexByID[b.Parent]
+			parentID, ok := boneIndexByID[b.Parent]
+			if !ok {
+				continue
+			}
 			dst.Bones[i].ParentID = parentID
 			dst.Bones[parentID].TailID = i
 			dst.Bones[parentID].Flags = dst.Bones[parentID].Flags | mmd.BoneFlagTailIndex
@@ -202,7 +205,10 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 			AngularDamping: b.AngularDamping,
 			Restitution:    b.Restitution,
 			Friction:       b.Friction,
-			Bone:           boneIndexByID[b.TargetBoneID],
+			Bone:           -1,
+		}
+		if bone, ok := boneIndexByID[b.TargetBoneID]; ok {
+			body.Bone = bone
 		}
 		if i > 0 {
 			body.Name += "_" + fmt.Sprint(i)
-- 
2.43.0


From fdbd002e24b23c9137969a258982dad1475f8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:21 +0000
Subject: [PATCH 040/154] fix: keep double sided materials when converting mqo
 to mmd

---
 converter/mqo2mmd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 5c86a08..e70c036 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -166,11 +166,17 @@ func (c *mqoToMMD) convertBone(bone *mqo.Bone) *mmd.Bone {
 }
 
 func (c *mqoToMMD) convertMaterial(m *mqo.Material, faceCount, texture int) *mmd.Material {
+	var flags byte
+	if m.DoubleSided {
+		flags |= mmd.MaterialFlagDoubleSided
+	}
 	return &mmd.Material{
+		Flags:       flags,
 		Name:        m.Name,
 		Color:       mmd.Vector4{X: m.Color.X, Y: m.Color.Y, Z: m.Color.Z, W: m.Color.W},
 		Specularity: m.Power,
 		TextureID:   texture,
+		EnvID:       -1,
 		Toon:        -1,
 		Count:       faceCount * 3,
 	}
-- 
2.43.0


From bf7531d5668120e4b8eee7956582a19a62b03680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:22 +0000
Subject: [PATCH 041/154] fix: keep the largest weights when a vertex has more
 than four

---
 converter/mqo2mmd.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index e70c036..0d04e54 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -145,6 +145,16 @@ func (c *mqoToMMD) setWeights(dst *mmd.Document, obj *mqo.Object, vmap map[int][
 				for _, v := range vmap[vi] {
 					vertex := dst.Vertexes[v]
 					if len(vertex.BoneWeights) >= 4 {
+						min := 0
+						for i, w := range vertex.BoneWeights {
+							if w < vertex.BoneWeights[min] {
+								min = i
+							}
+						}
+						if vertex.BoneWeights[min] < vw.Weight*0.01 {
+							vertex.Bones[min] = bi
+							vertex.BoneWeights[min] = vw.Weight * 0.01
+						}
 						continue
 					}
 					vertex.Bones = append(vertex.Bones, bi)
-- 
2.43.0


From 93c1812946881035a04086c2fb8a9a619150ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:23 +0000
Subject: [PATCH 042/154] fix: triangulate concave faces when converting mqo to
 mmd

---
 converter/mqo2mmd.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 0d04e54..92c5282 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"fmt"
 
+	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
 )
@@ -109,9 +110,17 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 						}
 					}
 				}
-				// convex polygon only. TODO: triangulation.
-				for n := 0; n < len(verts)-2; n++ {
-					dst.Faces = append(dst.Faces, &mmd.Face{Verts: [3]int{verts[0], verts[n+1], verts[n+2]}})
+				if len(verts) == 3 {
+					dst.Faces = append(dst.Faces, &mmd.Face{Verts: [3]int{verts[0], verts[1], verts[2]}})
+					faceCount++
+					continue
+				}
+				var poly []*mqo.Vector3
+				for _, v := range f.Verts {
+					poly = append(poly, obj.Vertexes[v])
+				}
+				for _, tri := range geom.Triangulate(poly) {
+					dst.Faces = append(dst.Faces, &mmd.Face{Verts: [3]int{verts[tri[0]], verts[tri[1]], verts[tri[2]]}})
 					faceCount++
 				}
 			}
-- 
2.43.0


From beef31940bb5089eaafda1f68a22ce2e6be0c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:13 +0000
Subject: [PATCH 043/154] fix: lines and degenerate faces do not bend smooth
 normals

---
 mqo/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/utils.go b/mqo/utils.go
index fba3a72..3f3d155 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -57,6 +57,9 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 			v1 := obj.Vertexes[face.Verts[(i+len(face.Verts)-1)%len(face.Verts)]].Sub(obj.Vertexes[v])
 			v2 := obj.Vertexes[face.Verts[(i+1)%len(face.Verts)]].Sub(obj.Vertexes[v])
 			cross := Vector3{X: v1.Y*v2.Z - v1.Z*v2.Y, Y: v1.Z*v2.X - v1.X*v2.Z, Z: v1.X*v2.Y - v1.Y*v2.X}
+			if cross.LenSqr() == 0 {
+				continue
+			}
 			cross.Normalize()
 			normal[v] = *normal[v].Add(&cross)
 		}
-- 
2.43.0


From b923f07e07fc677bbffdadbe7c139c2088c65b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:45 +0000
Subject: [PATCH 044/154] fix: smooth normals at the reflex corners of concave
 faces do not point backwards

---
 mqo/utils.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mqo/utils.go b/mqo/utils.go
index 3f3d155..53edbed 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -45,6 +45,16 @@ func (doc *Document) ApplyTransform(transform *Matrix4) {
 	}
 }
 
+func (obj *Object) faceAreaVector(face *Face) *Vector3 {
+	sum := &Vector3{}
+	for i := 2; i < len(face.Verts); i++ {
+		v1 := obj.Vertexes[face.Verts[i]].Sub(obj.Vertexes[face.Verts[0]])
+		v2 := obj.Vertexes[face.Verts[i-1]].Sub(obj.Vertexes[face.Verts[0]])
+		sum = sum.Add(v1.Cross(v2))
+	}
+	return sum
+}
+
 func (obj *Object) GetSmoothNormals() []Vector3 {
 	normal := make([]Vector3, len(obj.Vertexes))
 
@@ -60,6 +70,9 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 			if cross.LenSqr() == 0 {
 				continue
 			}
+			if len(face.Verts) > 3 && cross.Dot(obj.faceAreaVector(face)) < 0 {
+				cross = *cross.Scale(-1)
+			}
 			cross.Normalize()
 			normal[v] = *normal[v].Add(&cross)
 		}
-- 
2.43.0


From 7815f95afd3f3a3528f1d2576926c37f206e6069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:32 +0000
Subject: [PATCH 045/154] fix: convert bones whose parent does not exist

---
 converter/mqo2gltf.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 89ffa8b..c30e367 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -190,8 +190,7 @@ func (m *mqoToGltf) addBoneNodes(bones []*mqo.Bone) (map[int]uint32, map[uint32]
 
 	for _, b := range bones {
 		node := m.Nodes[idmap[b.ID]]
-		if b.Parent > 0 {
-			parent := bonemap[b.Parent]
+		if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil {
 			node.Translation[0] = ((b.Pos.X - parent.Pos.X) * scale)
 			node.Translation[1] = ((b.Pos.Y - parent.Pos.Y) * scale)
 			node.Translation[2] = ((b.Pos.Z - parent.Pos.Z) * scale)
-- 
2.43.0


From dbeaa777d8e2362bc46c9ccb5d827fd54ce50a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:33 +0000
Subject: [PATCH 046/154] fix: normalize limited vertex weights once and ignore
 weights of missing vertexes

---
 converter/mqo2gltf.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index c30e367..103888a 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -235,6 +235,10 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 			jointIds = append(jointIds, boneIDToJoint[b.ID])
 			for _, vw := range bw.Vertexes {
 				v := obj.GetVertexIndexByID(vw.VertexID)
+				if v < 0 || v >= vs {
+					log.Println("invalid weight. V:", vw.VertexID, " O:", obj.Name)
+					continue
+				}
 				jindex := njoint[v]
 				njoint[v]++
 				if jindex >= 4 {
@@ -250,28 +254,23 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 						continue
 					}
 				}
-				if v < 0 || v >= vs {
-					log.Fatal("invalid weight. V:", vw.VertexID, " O:", obj.Name)
-				}
 				joints[v][jindex] = uint16(len(jointIds)) - 1
 				weights[v][jindex] = vw.Weight * 0.01
 			}
-			for _, vw := range bw.Vertexes {
-				v := obj.GetVertexIndexByID(vw.VertexID)
-				if njoint[v] > 4 {
-					log.Println("WWARNING: njoint > 4. V:", vw.VertexID, " O:", obj.Name)
-					var sum float32 = 0
-					for _, w := range weights[v] {
-						sum += w
-					}
-					if sum > 0 {
-						for i := range weights[v] {
-							weights[v][i] /= sum
-						}
-					}
+		}
+	}
+	for v, n := range njoint {
+		if n > 4 {
+			log.Println("WWARNING: njoint > 4. V:", v, " O:", obj.Name)
+			var sum float32 = 0
+			for _, w := range weights[v] {
+				sum += w
+			}
+			if sum > 0 {
+				for i := range weights[v] {
+					weights[v][i] /= sum
 				}
 			}
-
 		}
 	}
 	return jointIds, joints, weights
-- 
2.43.0


From 1b6b0fdc9e5fe8c4c245b6d4c573b9b7917f3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:34 +0000
Subject: [PATCH 047/154] fix: limit the resolution of tall textures and keep
 thin ones

---
 converter/mqo2gltf.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 103888a..58bb5d0 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -334,14 +334,21 @@ func scaleTexture(texture string, mime string, textures *textureCache, scale flo
 	rect := img.Bounds()
 
 	if limit > 0 {
-		sz := int(float32(rect.Dx()) * scale)
+		sz := int(geom.Max(float32(rect.Dx()), float32(rect.Dy())) * scale)
 		if sz > limit {
 			scale *= float32(limit) / float32(sz)
 		}
 	}
 
 	if scale != 1.0 {
-		dst := image.NewRGBA(image.Rect(0, 0, int(float32(rect.Dx())*scale), int(float32(rect.Dy())*scale)))
+		w, h := int(float32(rect.Dx())*scale), int(float32(rect.Dy())*scale)
+		if w < 1 {
+			w = 1
+		}
+		if h < 1 {
+			h = 1
+		}
+		dst := image.NewRGBA(image.Rect(0, 0, w, h))
 		draw.CatmullRom.Scale(dst, dst.Bounds(), img, rect, draw.Over, nil)
 		img = dst
 	}
-- 
2.43.0


From 4d783b84fae95a804ea39d6c1783e28327cccd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 048/154] fix: decode textures with absolute paths

---
 converter/mqo2gltf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 58bb5d0..43f3390 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -120,7 +120,11 @@ func (c *textureCache) getImage(name string) (image.Image, error) {
 		return t.img, t.err
 	}
 
-	f, err := os.Open(filepath.Join(c.srcDir, t.name))
+	path := t.name
+	if !filepath.IsAbs(path) {
+		path = filepath.Join(c.srcDir, t.name)
+	}
+	f, err := os.Open(path)
 	if err != nil {
 		t.err = err
 		return nil, err
-- 
2.43.0


From 0abcf69de1040219dfee4e20ac1fec6c429574a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:36 +0000
Subject: [PATCH 049/154] fix: use the default alpha cutoff of masked materials
 that have none

---
 converter/mqo2gltf.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 43f3390..b759937 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -484,8 +484,10 @@ func (m *mqoToGltf) convertMaterial(mat *mqo.Material, textures *textureCache, b
 			mm.AlphaMode = gltf.AlphaOpaque
 		case 2:
 			mm.AlphaMode = gltf.AlphaMask
-			cutoff := float32(mat.Ex2.FloatParam("AlphaCutOff"))
-			mm.AlphaCutoff = &cutoff
+			if _, ok := mat.Ex2.ShaderParams["AlphaCutOff"]; ok {
+				cutoff := float32(mat.Ex2.FloatParam("AlphaCutOff"))
+				mm.AlphaCutoff = &cutoff
+			}
 		case 3:
 			mm.AlphaMode = gltf.AlphaBlend
 		}
-- 
2.43.0


From 1c733bd3a49b96cf3f9ad5df3a07af074c6512b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:37 +0000
Subject: [PATCH 050/154] fix: write unit normals to gltf

---
 converter/mqo2gltf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index b759937..7c73ccc 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -673,6 +673,10 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 		indices[mat] = append(indices[mat], uint32(verts[2]), uint32(verts[1]), uint32(verts[0]))
 	}
 
+	for i, n := range normals {
+		geom.NewVector3(n[0], n[1], n[2]).Normalize().ToArray(normals[i][:])
+	}
+
 	attributes := map[string]uint32{}
 
 	if !partial && shared != nil && shared.attributes != nil {
-- 
2.43.0


From e638072794fbf76997a7862d3820b37adf7132b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:38 +0000
Subject: [PATCH 051/154] fix: morph targets of meshes without normals have no
 normals

---
 converter/mqo2gltf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 7c73ccc..08d8141 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -718,10 +718,13 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 			v := morphObj.Vertexes[i]
 			mv = append(mv, [3]float32{v.X*scale - vertexes[i][0], v.Y*scale - vertexes[i][1], v.Z*scale - vertexes[i][2]})
 		}
-		targets = append(targets, map[string]uint32{
+		target := map[string]uint32{
 			"POSITION": modeler.WritePosition(m.Document, mv),
-			"NORMAL":   attributes["NORMAL"], // for UniVRM. TODO
-		})
+		}
+		if normal, ok := attributes["NORMAL"]; ok {
+			target["NORMAL"] = normal // for UniVRM. TODO
+		}
+		targets = append(targets, target)
 		targetNames = append(targetNames, morphObj.Name)
 	}
 
-- 
2.43.0


From fd106185268f7d8595ebe92af063edf2d60f8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:40 +0000
Subject: [PATCH 052/154] fix: ignore missing morph target objects when
 converting to gltf

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 08d8141..5ea287d 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -840,7 +840,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		if m.convertMorph {
 			if morph, ok := morphBases[obj.Name]; ok {
 				for _, t := range morph.Target {
-					if len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
+					if objectByName[t.Name] == nil || len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
 						log.Print("unmached morph target: ", t.Name)
 						continue
 					}
-- 
2.43.0


From d569a9e4559add432731c76d7f7f9541fc9930a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:41 +0000
Subject: [PATCH 053/154] fix: only nodes with a mesh have a skin

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 5ea287d..ba9dee5 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -865,7 +865,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 				node.Mesh = gltf.Index(uint32(len(m.Document.Meshes)))
 				m.Document.Meshes = append(m.Document.Meshes, mesh)
 			}
-			if len(joints) > 0 {
+			if len(joints) > 0 && node.Mesh != nil {
 				node.Skin = gltf.Index(m.addSkin(joints, jointToBone))
 			}
 			if m.ExportLights {
-- 
2.43.0


From 5b98c6e31703740260699ff6c0b412d85002a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:42 +0000
Subject: [PATCH 054/154] fix: place reused geometry whose original is not at
 the origin

---
 converter/mqo2gltf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index ba9dee5..10a6f87 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -878,11 +878,11 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 				}
 			}
 			if (m.ExportLights && obj.Extra["light"] != nil || shared != nil) && obj.InternalTransform != nil {
-				m := obj.InternalTransform.TranslationScale(m.Scale)
+				mat := obj.InternalTransform
 				if shared != nil {
-					m = m.Mul(shared.matrix)
+					mat = mat.Mul(shared.matrix)
 				}
-				m.ToArray(node.Matrix[:])
+				mat.TranslationScale(m.Scale).ToArray(node.Matrix[:])
 				// workaround: avoid missing mesh issue in Windows 3D viewer?
 				node.Matrix[3] = 0
 				node.Matrix[7] = 0
-- 
2.43.0


From 8d17f41d4de29bc52dee6188c2096502871bf6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:43 +0000
Subject: [PATCH 055/154] fix: keep the order of gltf extensions stable

---
 converter/mqo2gltf.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 10a6f87..881f33f 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/binzume/modelconv/geom"
@@ -938,6 +939,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 	for ext := range m.extensions {
 		m.ExtensionsUsed = append(m.ExtensionsUsed, ext)
 	}
+	sort.Strings(m.ExtensionsUsed)
 
 	if len(m.Document.Textures) > 0 {
 		m.Document.Samplers = []*gltf.Sampler{{}}
-- 
2.43.0


From 7cfc65305d6c723b2a94912cd2064d816757b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:44 +0000
Subject: [PATCH 056/154] fix: keep siblings siblings when object depths skip a
 level

---
 converter/mqo2gltf.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 881f33f..630b8fd 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -836,6 +836,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 
 	var lights []map[string]interface{}
 	var nodePath []*gltf.Node
+	var nodeDepth []int
 	for i, obj := range targetObjects {
 		var morphTargets []*mqo.Object
 		if m.convertMorph {
@@ -893,8 +894,9 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		}
 		m.Nodes[i] = node
 		// node.AddChild()
-		if len(nodePath) > obj.Depth {
-			nodePath = nodePath[:obj.Depth]
+		for len(nodePath) > 0 && nodeDepth[len(nodePath)-1] >= obj.Depth {
+			nodePath = nodePath[:len(nodePath)-1]
+			nodeDepth = nodeDepth[:len(nodePath)]
 		}
 		if !m.IgnoreObjectHierarchy && len(nodePath) > 0 {
 			parent := nodePath[len(nodePath)-1]
@@ -904,6 +906,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		}
 		if node.MatrixOrDefault() == gltf.DefaultMatrix {
 			nodePath = append(nodePath, node)
+			nodeDepth = append(nodeDepth, obj.Depth)
 		}
 
 		// Physics
-- 
2.43.0


From a4cd4bbc0efe923948e3c0e22491ea11c7b02179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:11 +0000
Subject: [PATCH 057/154] fix: reuse geometry only between instances whose
 faces are grouped the same way

---
 converter/mqo2gltf.go | 49 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 630b8fd..e5d379f 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"reflect"
 	"sort"
 	"strings"
 
@@ -144,9 +145,31 @@ type geomCache struct {
 	count      int
 	attributes map[string]uint32
 	indices    []uint32
+	faces      [][]uint32
 	matrix     *geom.Matrix4
 }
 
+// matches returns true if the shared data can be used for the primitives.
+func (c *geomCache) matches(indices map[int][]uint32, materials []int, attributes ...string) bool {
+	if c.attributes == nil {
+		return true
+	}
+	if len(c.faces) != len(materials) {
+		return false
+	}
+	for i, mat := range materials {
+		if !reflect.DeepEqual(c.faces[i], indices[mat]) {
+			return false
+		}
+	}
+	for _, name := range attributes {
+		if _, ok := c.attributes[name]; !ok {
+			return false
+		}
+	}
+	return true
+}
+
 func NewMQOToGLTFConverter(options *MQOToGLTFOption) *mqoToGltf {
 	if options == nil {
 		options = &MQOToGLTFOption{}
@@ -680,6 +703,19 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 
 	attributes := map[string]uint32{}
 
+	if shared != nil {
+		required := []string{"POSITION"}
+		if useTexcood0 {
+			required = append(required, "TEXCOORD_0")
+		}
+		if obj.Shading > 0 && !m.ForceUnlit {
+			required = append(required, "NORMAL")
+		}
+		if len(materials) == 0 || !shared.matches(indices, materials, required...) {
+			shared = nil
+		}
+	}
+
 	if !partial && shared != nil && shared.attributes != nil {
 		attributes["POSITION"] = shared.attributes["POSITION"]
 		if useTexcood0 {
@@ -707,6 +743,7 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 		shared.attributes = attributes
 		for _, mat := range materials {
 			shared.indices = append(shared.indices, modeler.WriteIndices(m.Document, indices[mat]))
+			shared.faces = append(shared.faces, indices[mat])
 		}
 	}
 
@@ -854,15 +891,19 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		node := &gltf.Node{Name: obj.Name}
 		if obj.Visible {
 			var shared *geomCache
-			if key, ok := obj.Extra["sharedGeometryKey"].(string); m.ReuseGeometry && ok {
+			if key, ok := obj.Extra["sharedGeometryKey"].(string); m.ReuseGeometry && ok && obj.InternalTransform != nil {
 				if sharedGeoms[key] != nil && sharedGeoms[key].count > 1 {
 					shared = sharedGeoms[key]
-					if shared.matrix == nil {
-						shared.matrix = obj.InternalTransform.Inverse()
-					}
 				}
 			}
 			mesh, joints := m.ConvertObject(obj, bones, boneIDToJoint, morphTargets, materialMap, shared, uvBounds)
+			if shared != nil {
+				if len(mesh.Primitives) == 0 || shared.attributes == nil || mesh.Primitives[0].Attributes["POSITION"] != shared.attributes["POSITION"] {
+					shared = nil // has its own vertexes
+				} else if shared.matrix == nil {
+					shared.matrix = obj.InternalTransform.Inverse()
+				}
+			}
 			if len(mesh.Primitives) > 0 {
 				node.Mesh = gltf.Index(uint32(len(m.Document.Meshes)))
 				m.Document.Meshes = append(m.Document.Meshes, mesh)
-- 
2.43.0


From 75aa5423e0d2dff22c78251a1ea1a040601c0ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 058/154] fix: do not write empty accessors for objects without
 faces

---
 converter/mqo2gltf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index e5d379f..faf5fa7 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -697,6 +697,10 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 		indices[mat] = append(indices[mat], uint32(verts[2]), uint32(verts[1]), uint32(verts[0]))
 	}
 
+	if len(materials) == 0 {
+		return &gltf.Mesh{Name: obj.Name}, nil
+	}
+
 	for i, n := range normals {
 		geom.NewVector3(n[0], n[1], n[2]).Normalize().ToArray(normals[i][:])
 	}
-- 
2.43.0


From d52f5cb0e6a5f30e3841e0d8834ffcbf3436d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:33 +0000
Subject: [PATCH 059/154] fix: animate translations relative to the parent bone

---
 converter/glbanim.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 00f9aaf..203f21f 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -73,6 +73,9 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			if b, ok := bones[uint32(n)]; ok {
 				rot = b.RotationOffset
 				pos = b.Pos.Vector3
+				if parent := boneByID[b.Parent]; b.Parent > 0 && parent != nil {
+					pos = *pos.Sub(&parent.Pos.Vector3)
+				}
 
 				if boneByID[b.Parent] != nil && b.RotationOffset.X != boneByID[b.Parent].RotationOffset.X {
 					// TODO rotation matrix
-- 
2.43.0


From 68c833499c878b5eaac73620cf88b1fd310a5e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:34 +0000
Subject: [PATCH 060/154] fix: write animation channels in a stable order

---
 converter/glbanim.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 203f21f..fc1fb92 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"log"
 	"math"
+	"sort"
 
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
@@ -37,7 +38,9 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 
 	boneToNode := map[string]int{}
 	for n, b := range bones {
-		boneToNode[b.Name] = int(n)
+		if i, exists := boneToNode[b.Name]; !exists || int(n) < i {
+			boneToNode[b.Name] = int(n)
+		}
 	}
 
 	boneByID := map[int]*mqo.Bone{}
@@ -54,7 +57,13 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 
 	var prevCh *mmd.BoneChannel
 	var prevKeysAcc uint32
-	for _, channel := range bb {
+	var names []string
+	for name := range bb {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		channel := bb[name]
 		if n, ok := boneToNode[channel.Target]; ok {
 			var keysAcc uint32
 			if prevCh != nil && keysEquals(channel.Frames, prevCh.Frames) {
@@ -205,14 +214,24 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 	}
 
 	nodeChannels := map[int][]*mmd.MorphChannel{}
-	for _, m := range morphs {
+	var names []string
+	for name := range morphs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		m := morphs[name]
 		if _, exits := targets[m.Target]; !exits {
 			continue
 		}
 		nodeChannels[targets[m.Target][0]] = append(nodeChannels[targets[m.Target][0]], m)
 	}
 
-	for ni, mm := range nodeChannels {
+	for ni := range doc.Nodes {
+		mm := nodeChannels[ni]
+		if len(mm) == 0 {
+			continue
+		}
 		var keys []float32
 		for _, k := range mm[0].Frames {
 			keys = append(keys, float32(k)/30)
-- 
2.43.0


From da5e0c94b3fe2b96bbaea6fa50ad75fca3c36216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:35 +0000
Subject: [PATCH 061/154] fix: morph weights outside of 0..1 do not wrap around

---
 converter/glbanim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index fc1fb92..cd61743 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -247,7 +247,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 				continue
 			}
 			for f, v := range m.Weights {
-				weights[f*sampleSize+targets[m.Target][1]] = uint8(v * 255)
+				weights[f*sampleSize+targets[m.Target][1]] = uint8(math.Max(0, math.Min(1, float64(v)))*255 + 0.5)
 			}
 		}
 		log.Print(doc.Nodes[ni], weights)
-- 
2.43.0


From b6b024e03c2af9183f9b027682d16771cfe25659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:36 +0000
Subject: [PATCH 062/154] fix: resample morph channels that have different key
 frames

---
 converter/glbanim.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index cd61743..ed71c24 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -193,6 +193,34 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 	}
 }
 
+// mergeFrames returns sorted frames of all channels.
+func mergeFrames(channels []*mmd.MorphChannel) []uint32 {
+	var frames []uint32
+	exists := map[uint32]bool{}
+	for _, m := range channels {
+		for _, f := range m.Frames {
+			if !exists[f] {
+				exists[f] = true
+				frames = append(frames, f)
+			}
+		}
+	}
+	sort.Slice(frames, func(i, j int) bool { return frames[i] < frames[j] })
+	return frames
+}
+
+func sampleMorph(m *mmd.MorphChannel, frame uint32) float32 {
+	i := sort.Search(len(m.Frames), func(i int) bool { return m.Frames[i] >= frame })
+	if i == len(m.Frames) {
+		return m.Weights[i-1]
+	}
+	if i == 0 || m.Frames[i] == frame {
+		return m.Weights[i]
+	}
+	t := float32(frame-m.Frames[i-1]) / float32(m.Frames[i]-m.Frames[i-1])
+	return m.Weights[i-1]*(1-t) + m.Weights[i]*t
+}
+
 func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*mmd.MorphChannel) {
 	targets := map[string][3]int{} // targetName => [node, targetIndex]
 	for i, n := range doc.Nodes {
@@ -232,8 +260,9 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		if len(mm) == 0 {
 			continue
 		}
+		frames := mergeFrames(mm)
 		var keys []float32
-		for _, k := range mm[0].Frames {
+		for _, k := range frames {
 			keys = append(keys, float32(k)/30)
 		}
 
@@ -242,11 +271,8 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		weights := make([]uint8, sampleSize*sampleCount)
 
 		for _, m := range mm {
-			if len(m.Frames) != sampleCount {
-				log.Print("TODO: resample", m.Target, len(m.Frames), sampleCount)
-				continue
-			}
-			for f, v := range m.Weights {
+			for f, frame := range frames {
+				v := sampleMorph(m, frame)
 				weights[f*sampleSize+targets[m.Target][1]] = uint8(math.Max(0, math.Min(1, float64(v)))*255 + 0.5)
 			}
 		}
-- 
2.43.0


From e4c5dae8f018864c89c61d6d4d4f5eb2ef06db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:37 +0000
Subject: [PATCH 063/154] fix: use one sample per frame of a motion channel

---
 mmd/vmd_parser.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mmd/vmd_parser.go b/mmd/vmd_parser.go
index 0a5d919..84b5a54 100644
--- a/mmd/vmd_parser.go
+++ b/mmd/vmd_parser.go
@@ -70,7 +70,7 @@ type MorphChannel struct {
 }
 
 func (a *Animation) GetBoneChannels() map[string]*BoneChannel {
-	sort.Slice(a.Bone, func(i, j int) bool { return a.Bone[i].Frame < a.Bone[j].Frame })
+	sort.SliceStable(a.Bone, func(i, j int) bool { return a.Bone[i].Frame < a.Bone[j].Frame })
 
 	r := map[string]*BoneChannel{}
 	for _, s := range a.Bone {
@@ -79,6 +79,10 @@ func (a *Animation) GetBoneChannels() map[string]*BoneChannel {
 			a = &BoneChannel{Target: s.Target}
 			r[s.Target] = a
 		}
+		if n := len(a.Frames); n > 0 && a.Frames[n-1] == uint32(s.Frame) {
+			a.Rotations[n-1], a.Positions[n-1] = &s.Rotation, &s.Position
+			continue
+		}
 		a.Frames = append(a.Frames, uint32(s.Frame))
 		a.Rotations = append(a.Rotations, &s.Rotation)
 		a.Positions = append(a.Positions, &s.Position)
@@ -87,7 +91,7 @@ func (a *Animation) GetBoneChannels() map[string]*BoneChannel {
 }
 
 func (a *Animation) GetMorphChannels() map[string]*MorphChannel {
-	sort.Slice(a.Morph, func(i, j int) bool { return a.Morph[i].Frame < a.Morph[j].Frame })
+	sort.SliceStable(a.Morph, func(i, j int) bool { return a.Morph[i].Frame < a.Morph[j].Frame })
 
 	r := map[string]*MorphChannel{}
 	for _, s := range a.Morph {
@@ -96,6 +100,10 @@ func (a *Animation) GetMorphChannels() map[string]*MorphChannel {
 			a = &MorphChannel{Target: s.Target}
 			r[s.Target] = a
 		}
+		if n := len(a.Frames); n > 0 && a.Frames[n-1] == uint32(s.Frame) {
+			a.Weights[n-1] = s.Value
+			continue
+		}
 		a.Frames = append(a.Frames, uint32(s.Frame))
 		a.Weights = append(a.Weights, s.Value)
 	}
-- 
2.43.0


From 0f1037b9d5844321d3f519f6d83d3017c46a396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:00 +0000
Subject: [PATCH 064/154] fix: write the bounds of animation key accessors

---
 converter/glbanim.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index ed71c24..f6bfae4 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -23,6 +23,16 @@ func keysEquals(a, b []uint32) bool {
 	return true
 }
 
+// writeKeys writes sorted key times and their bounds.
+func writeKeys(doc *gltf.Document, keys []float32) uint32 {
+	acc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+	if len(keys) > 0 {
+		doc.Accessors[acc].Min = []float32{keys[0]}
+		doc.Accessors[acc].Max = []float32{keys[len(keys)-1]}
+	}
+	return acc
+}
+
 func isDefaultRotations(samples []*mmd.Vector4) bool {
 	ident := mmd.Vector4{X: 0, Y: 0, Z: 0, W: 1}
 	for _, q := range samples {
@@ -73,7 +83,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 				for _, k := range channel.Frames {
 					keys = append(keys, float32(k)/30)
 				}
-				keysAcc = modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+				keysAcc = writeKeys(doc, keys)
 			}
 
 			var rot mqo.Vector3
@@ -278,7 +288,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		}
 		log.Print(doc.Nodes[ni], weights)
 
-		keysAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+		keysAcc := writeKeys(doc, keys)
 		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, weights)
 		doc.Accessors[weightsAcc].Normalized = true
 
-- 
2.43.0


From 4edb43573055ea0e901441f707c15067e9a6b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:07 +0000
Subject: [PATCH 065/154] fix: embed image files relative to the source
 directory

---
 gltfutil/gltf_utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index fc71355..ecbc0b6 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -4,6 +4,7 @@ import (
 	"io/ioutil"
 	"log"
 	"math"
+	"net/url"
 	"os"
 	"path/filepath"
 	"strings"
@@ -52,8 +53,11 @@ func ToSingleFile(doc *gltf.Document, srcDir string) error {
 	}
 	for _, m := range doc.Images {
 		if m.BufferView == nil && m.URI != "" {
-			path, _ := filepath.Rel(srcDir, m.URI)
-			f, err := os.Open(path)
+			path := m.URI
+			if unescaped, err := url.PathUnescape(path); err == nil {
+				path = unescaped
+			}
+			f, err := os.Open(filepath.Join(srcDir, filepath.FromSlash(path)))
 			if err != nil {
 				log.Print(err)
 				continue
-- 
2.43.0


From 3c3c2d610a18fab86a073e97a90469f9900b7107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:08 +0000
Subject: [PATCH 066/154] fix: merge the buffers of a gltf document when it is
 saved as a single file

---
 gltfutil/gltf_utils.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index ecbc0b6..537eb78 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -47,7 +47,30 @@ func RemoveExtension(doc *gltf.Document, extension string) {
 	delete(doc.Extensions, extension)
 }
 
+// mergeBuffers moves all buffers into the first one (a GLB file has only one).
+func mergeBuffers(doc *gltf.Document) {
+	if len(doc.Buffers) <= 1 {
+		return
+	}
+	dst := doc.Buffers[0]
+	offsets := make([]uint32, len(doc.Buffers))
+	for i, b := range doc.Buffers[1:] {
+		for len(dst.Data)%4 != 0 {
+			dst.Data = append(dst.Data, 0)
+		}
+		offsets[i+1] = uint32(len(dst.Data))
+		dst.Data = append(dst.Data, b.Data...)
+	}
+	dst.ByteLength = uint32(len(dst.Data))
+	for _, v := range doc.BufferViews {
+		v.ByteOffset += offsets[v.Buffer]
+		v.Buffer = 0
+	}
+	doc.Buffers = doc.Buffers[:1]
+}
+
 func ToSingleFile(doc *gltf.Document, srcDir string) error {
+	mergeBuffers(doc)
 	for _, b := range doc.Buffers {
 		b.URI = ""
 	}
-- 
2.43.0


From fc81d5a305016478e2af99dc64f344c4f3a6e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:09 +0000
Subject: [PATCH 067/154] fix: do not overwrite or reuse the buffers of the
 source when saving gltf files

---
 cmd/modelconv/main.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index fd79fef..4beb04d 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -83,9 +83,7 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		return gltf.SaveBinary(doc, output)
 	} else if ext == ".gltf" {
 		for i, b := range doc.Buffers {
-			if b.URI == "" {
-				b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)
-			}
+			b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)
 		}
 		return gltf.Save(doc, output)
 	} else if ext == ".vrm" {
-- 
2.43.0


From 177075180ce36ffbfe872fbe1edb4c3a9fa9e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:10 +0000
Subject: [PATCH 068/154] fix: escape the names of gltf buffer files

---
 cmd/modelconv/main.go  |  6 +++--
 cmd/modelconv/utils.go |  4 ++--
 gltfutil/gltf_utils.go | 50 +++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 4beb04d..e8c526f 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log"
 	"math"
+	"net/url"
 	"os"
 	"path"
 	"path/filepath"
@@ -83,9 +84,10 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		return gltf.SaveBinary(doc, output)
 	} else if ext == ".gltf" {
 		for i, b := range doc.Buffers {
-			b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)
+			name := fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)
+			b.URI = (&url.URL{Path: name}).EscapedPath()
 		}
-		return gltf.Save(doc, output)
+		return gltfutil.Save(doc, output)
 	} else if ext == ".vrm" {
 		conf, err := converter.LoadVRMConfig(vrmConf)
 		if err != nil {
diff --git a/cmd/modelconv/utils.go b/cmd/modelconv/utils.go
index 2c132f2..4d260eb 100644
--- a/cmd/modelconv/utils.go
+++ b/cmd/modelconv/utils.go
@@ -9,10 +9,10 @@ import (
 
 	"github.com/binzume/modelconv/converter"
 	"github.com/binzume/modelconv/fbx"
+	"github.com/binzume/modelconv/gltfutil"
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/binzume/modelconv/unity"
-	"github.com/qmuntal/gltf"
 )
 
 func loadAnimation(input string) (*mmd.Animation, error) {
@@ -32,7 +32,7 @@ func loadDocument(input string) (*mqo.Document, error) {
 	case isMQO(ext):
 		return mqo.Load(input)
 	case isGltf(ext):
-		doc, err := gltf.Open(input)
+		doc, err := gltfutil.Load(input)
 		if err != nil {
 			return nil, err
 		}
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 537eb78..bcfc243 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -1,6 +1,8 @@
 package gltfutil
 
 import (
+	"io"
+	"io/fs"
 	"io/ioutil"
 	"log"
 	"math"
@@ -15,8 +17,54 @@ import (
 	"github.com/qmuntal/gltf/modeler"
 )
 
+// uriFS finds the files of escaped relative URIs in a directory.
+type uriFS string
+
+func (dir uriFS) filename(uri string) string {
+	if name, err := url.PathUnescape(uri); err == nil && fs.ValidPath(name) {
+		return name
+	}
+	return uri
+}
+
+func (dir uriFS) Open(uri string) (fs.File, error) {
+	d := os.DirFS(string(dir))
+	if f, err := d.Open(dir.filename(uri)); err == nil {
+		return f, nil
+	}
+	return d.Open(uri)
+}
+
+func (dir uriFS) Create(uri string) (io.WriteCloser, error) {
+	return os.Create(filepath.Join(string(dir), dir.filename(uri)))
+}
+
 func Load(path string) (*gltf.Document, error) {
-	return gltf.Open(path)
+	f, err := os.Open(path)
+	if err != nil {
+		return nil, err
+	}
+	defer f.Close()
+	doc := new(gltf.Document)
+	if err = gltf.NewDecoderFS(f, uriFS(filepath.Dir(path))).Decode(doc); err != nil {
+		return nil, err
+	}
+	return doc, nil
+}
+
+// Save saves the document as a .gltf file. Buffers are saved to the files of their URIs.
+func Save(doc *gltf.Document, path string) error {
+	f, err := os.Create(path)
+	if err != nil {
+		return err
+	}
+	e := gltf.NewEncoderFS(f, uriFS(filepath.Dir(path)))
+	e.AsBinary = false
+	if err := e.Encode(doc); err != nil {
+		f.Close()
+		return err
+	}
+	return f.Close()
 }
 
 func RemoveExtension(doc *gltf.Document, extension string) {
-- 
2.43.0


From e0ce7f4306c5303ff17219b50ca5bc9b2cd0d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:11 +0000
Subject: [PATCH 069/154] fix: scale node positions, morph targets and bind
 matrices of gltf files

---
 gltfutil/gltf_utils.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index bcfc243..3acfbd3 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -157,7 +157,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	if transformMat == nil {
 		return
 	}
-	scaleMat := geom.NewMatrix4().Clone()
+	scaleMat := transformMat.Clone()
 	scaleMat[12], scaleMat[13], scaleMat[14] = 0, 0, 0 // remove translate
 
 	accs := map[uint32]bool{}
@@ -207,8 +207,11 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	for _, node := range doc.Nodes {
 		scaleMat.ApplyTo(geom.NewVector3FromArray(node.Translation)).ToArray(node.Translation[:])
 	}
+	scaleInv := scaleMat.Inverse()
+	fixedSkins := map[uint32]bool{}
 	for _, skin := range doc.Skins {
-		if skin.InverseBindMatrices != nil {
+		if skin.InverseBindMatrices != nil && !fixedSkins[*skin.InverseBindMatrices] {
+			fixedSkins[*skin.InverseBindMatrices] = true
 			accessor := doc.Accessors[*skin.InverseBindMatrices]
 			if accessor.BufferView != nil {
 				bufferView := doc.BufferViews[*accessor.BufferView]
@@ -218,14 +221,10 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 					continue
 				}
 				for i := range skin.Joints {
-					offset := bufferView.ByteOffset + uint32(i)*64
+					offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64
 					mat := readMatrix(data[offset : offset+64])
 					// apply scale
-					scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).ToArray(mat[:])
-					// normalize rotation
-					geom.NewVector3FromSlice(mat[0:3]).Normalize().ToArray(mat[0:3])
-					geom.NewVector3FromSlice(mat[4:7]).Normalize().ToArray(mat[4:7])
-					geom.NewVector3FromSlice(mat[8:11]).Normalize().ToArray(mat[8:11])
+					scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).Mul(scaleInv).ToArray(mat[:])
 					writeMatrix(data[offset:offset+64], mat)
 				}
 			}
-- 
2.43.0


From bf905483fcced738716eea998a30c070161a9df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:35 +0000
Subject: [PATCH 070/154] fix: scale node matrices of gltf files

---
 gltfutil/gltf_utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 3acfbd3..c67a8b6 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -206,6 +206,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	}
 	for _, node := range doc.Nodes {
 		scaleMat.ApplyTo(geom.NewVector3FromArray(node.Translation)).ToArray(node.Translation[:])
+		scaleMat.ApplyTo(geom.NewVector3FromSlice(node.Matrix[12:15])).ToArray(node.Matrix[12:15])
 	}
 	scaleInv := scaleMat.Inverse()
 	fixedSkins := map[uint32]bool{}
-- 
2.43.0


From 34041725d2946d9a0fafc37f352591a6d7a5e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:36 +0000
Subject: [PATCH 071/154] fix: scale animated translations of gltf files

---
 gltfutil/gltf_utils.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index c67a8b6..a9948cb 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -173,8 +173,18 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 			}
 		}
 	}
+	for _, anim := range doc.Animations {
+		for _, ch := range anim.Channels {
+			if ch.Target.Path == gltf.TRSTranslation && ch.Sampler != nil && anim.Samplers[*ch.Sampler].Output != nil {
+				accs[*anim.Samplers[*ch.Sampler].Output] = true
+			}
+		}
+	}
 	for a, diff := range accs {
 		acr := doc.Accessors[a]
+		if acr.BufferView == nil && acr.Sparse == nil {
+			continue // all zero
+		}
 		pos, err := modeler.ReadPosition(doc, acr, [][3]float32{})
 		if err != nil {
 			log.Fatalf("err %v", err)
-- 
2.43.0


From f79451264fa5fa35f9f4cd384a93bd39bedf37b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:05 +0000
Subject: [PATCH 072/154] fix: convert all primitives of a gltf mesh to mqo

---
 converter/gltf2mqo.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 837204d..2e3729f 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -53,12 +53,28 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	return mat
 }
 
+// triangleIndices returns a list of triangles.
+func triangleIndices(mode gltf.PrimitiveMode, indices []uint32) []uint32 {
+	if mode == gltf.PrimitiveTriangles {
+		return indices
+	}
+	var triangles []uint32
+	for i := 2; i < len(indices); i++ {
+		if mode == gltf.PrimitiveTriangleFan {
+			triangles = append(triangles, indices[0], indices[i-1], indices[i])
+		} else if mode == gltf.PrimitiveTriangleStrip && i%2 == 0 {
+			triangles = append(triangles, indices[i-2], indices[i-1], indices[i])
+		} else if mode == gltf.PrimitiveTriangleStrip {
+			triangles = append(triangles, indices[i-1], indices[i-2], indices[i])
+		}
+	}
+	return triangles
+}
+
 func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 	obj := mqo.NewObject(m.Name)
 	for _, p := range m.Primitives {
-		if p.Indices == nil {
-			continue
-		}
+		base := len(obj.Vertexes)
 		if a, ok := p.Attributes["POSITION"]; ok {
 			acr := src.Accessors[a]
 			pos, err := modeler.ReadPosition(src, acr, [][3]float32{})
@@ -80,18 +96,27 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 				continue
 			}
 		}
-		acr := src.Accessors[*p.Indices]
-		indices, err := modeler.ReadIndices(src, acr, []uint32{})
-		if err != nil {
-			log.Fatalf("err %v", err)
-			continue
+		var indices []uint32
+		if p.Indices != nil {
+			acr := src.Accessors[*p.Indices]
+			var err error
+			indices, err = modeler.ReadIndices(src, acr, []uint32{})
+			if err != nil {
+				log.Fatalf("err %v", err)
+				continue
+			}
+		} else {
+			for i := range obj.Vertexes[base:] {
+				indices = append(indices, uint32(i))
+			}
 		}
+		indices = triangleIndices(p.Mode, indices)
 		mat := 0
 		if p.Material != nil {
 			mat = int(*p.Material)
 		}
 		for i := 0; i < len(indices)/3; i++ {
-			f := &mqo.Face{Material: mat, Verts: []int{int(indices[i*3]), int(indices[i*3+2]), int(indices[i*3+1])}}
+			f := &mqo.Face{Material: mat, Verts: []int{base + int(indices[i*3]), base + int(indices[i*3+2]), base + int(indices[i*3+1])}}
 			if len(texCoord) > int(indices[i*3]) {
 				f.UVs = []mqo.Vector2{
 					{X: texCoord[indices[i*3]][0], Y: texCoord[indices[i*3]][1]},
-- 
2.43.0


From 49f7cdeeed139b26c8bd40055054b516d6222fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:06 +0000
Subject: [PATCH 073/154] fix: keep the alpha mode and cutoff of gltf materials

---
 converter/gltf2mqo.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 2e3729f..400a530 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -35,10 +35,15 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 		ShaderType: "hlsl",
 		ShaderName: "glTF",
 		ShaderParams: map[string]interface{}{
-			"AlphaMode":   m.AlphaMode,
-			"AlphaCutoff": m.AlphaCutoffOrDefault(),
+			"AlphaMode":   mqo.AlphaModeOpaque,
+			"AlphaCutOff": m.AlphaCutoffOrDefault(),
 		},
 	}
+	if m.AlphaMode == gltf.AlphaMask {
+		mat.SetGltfAlphaMode(mqo.AlphaModeMask)
+	} else if m.AlphaMode == gltf.AlphaBlend {
+		mat.SetGltfAlphaMode(mqo.AlphaModeBlend)
+	}
 	if m.PBRMetallicRoughness != nil {
 		col := m.PBRMetallicRoughness.BaseColorFactorOrDefault()
 		mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
-- 
2.43.0


From 9b29ae4be90cc5f39942c2417d5aeed7791ffb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:07 +0000
Subject: [PATCH 074/154] fix: gltf materials without pbr parameters are white

---
 converter/gltf2mqo.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 400a530..38a69b8 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -44,6 +44,7 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	} else if m.AlphaMode == gltf.AlphaBlend {
 		mat.SetGltfAlphaMode(mqo.AlphaModeBlend)
 	}
+	mat.Color = mqo.Vector4{X: 1, Y: 1, Z: 1, W: 1}
 	if m.PBRMetallicRoughness != nil {
 		col := m.PBRMetallicRoughness.BaseColorFactorOrDefault()
 		mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
-- 
2.43.0


From ad3c475ba72129842955ec3b35f178ba72be3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:08 +0000
Subject: [PATCH 075/154] fix: unescape texture paths of gltf materials and
 ignore textures without file

---
 converter/gltf2mqo.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 38a69b8..e3cf6df 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -2,6 +2,8 @@ package converter
 
 import (
 	"log"
+	"net/url"
+	"strings"
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mqo"
@@ -53,7 +55,12 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 		mat.Ex2.ShaderParams["Roughness"] = m.PBRMetallicRoughness.RoughnessFactorOrDefault()
 		if m.PBRMetallicRoughness.BaseColorTexture != nil {
 			i := m.PBRMetallicRoughness.BaseColorTexture.Index
-			mat.Texture = src.Images[*src.Textures[i].Source].URI
+			if source := src.Textures[i].Source; source != nil && !strings.HasPrefix(src.Images[*source].URI, "data:") {
+				mat.Texture = src.Images[*source].URI
+				if unescaped, err := url.PathUnescape(mat.Texture); err == nil {
+					mat.Texture = unescaped
+				}
+			}
 		}
 	}
 	return mat
-- 
2.43.0


From d35437a8877f767882fec94066b2943e22d44271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:09 +0000
Subject: [PATCH 076/154] fix: place meshes and bones of gltf documents by the
 transforms of their nodes

---
 converter/gltf2mqo.go | 58 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index e3cf6df..cef2a5c 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -142,12 +142,47 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 	return obj
 }
 
-func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone) []*mqo.Bone {
-	n := src.Nodes[node]
-	pos := geom.NewVector3FromArray(n.Translation)
-	if parent > 0 {
-		pos = pos.Add(&bones[parent-1].Pos.Vector3)
+// worldTransforms returns the world matrix of each node.
+func worldTransforms(src *gltf.Document) []*geom.Matrix4 {
+	parents := make([]int, len(src.Nodes))
+	for i, n := range src.Nodes {
+		for _, child := range n.Children {
+			parents[child] = i + 1
+		}
+	}
+	worlds := make([]*geom.Matrix4, len(src.Nodes))
+	for i := range src.Nodes {
+		for n := i + 1; n > 0; n = parents[n-1] {
+			node := src.Nodes[n-1]
+			mat := node.MatrixOrDefault()
+			local := geom.NewMatrix4FromSlice(mat[:])
+			if mat == gltf.DefaultMatrix {
+				local = geom.NewTRSMatrix4(geom.NewVector3FromArray(node.Translation),
+					geom.NewQuaternionFromArray(node.RotationOrDefault()), geom.NewVector3FromArray(node.ScaleOrDefault()))
+			}
+			if worlds[i] != nil {
+				local = local.Mul(worlds[i])
+			}
+			worlds[i] = local
+		}
 	}
+	return worlds
+}
+
+func placeObject(obj *mqo.Object, mat *geom.Matrix4) {
+	for i, v := range obj.Vertexes {
+		obj.Vertexes[i] = mat.ApplyTo(v)
+	}
+	if mat.Det() < 0 {
+		for _, f := range obj.Faces {
+			f.Flip()
+		}
+	}
+}
+
+func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, worlds []*geom.Matrix4, bones []*mqo.Bone) []*mqo.Bone {
+	n := src.Nodes[node]
+	pos := worlds[node].ApplyTo(&geom.Vector3{})
 	b := &mqo.Bone{
 		ID:     len(bones) + 1,
 		Name:   n.Name,
@@ -157,7 +192,7 @@ func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bo
 	}
 	bones = append(bones, b)
 	for _, child := range n.Children {
-		bones = c.convertBones(src, child, b.ID, bones)
+		bones = c.convertBones(src, child, b.ID, worlds, bones)
 	}
 	return bones
 }
@@ -169,9 +204,14 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		mqdoc.Materials = append(mqdoc.Materials, c.convertMaterial(src, mat))
 	}
 
-	for _, node := range src.Nodes {
+	worlds := worldTransforms(src)
+	for i, node := range src.Nodes {
 		if node.Mesh != nil {
-			mqdoc.Objects = append(mqdoc.Objects, c.convertMesh(src, src.Meshes[*node.Mesh]))
+			obj := c.convertMesh(src, src.Meshes[*node.Mesh])
+			if node.Skin == nil { // The transforms of skinned meshes are ignored.
+				placeObject(obj, worlds[i])
+			}
+			mqdoc.Objects = append(mqdoc.Objects, obj)
 		}
 	}
 
@@ -181,7 +221,7 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		if skin.Skeleton != nil {
 			if _, exist := bonemap[*skin.Skeleton]; !exist {
 				bonemap[*skin.Skeleton] = true
-				bones = c.convertBones(src, *skin.Skeleton, 0, bones)
+				bones = c.convertBones(src, *skin.Skeleton, 0, worlds, bones)
 			}
 		}
 	}
-- 
2.43.0


From 9ac9398cef22794fb790b2f47e9eaa15ae81cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:19 +0000
Subject: [PATCH 077/154] fix: stop at the end of the top level nodes of binary
 fbx files and report cut off files

---
 fbx/binary_parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index 74774d1..b6136a2 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -249,10 +249,15 @@ func (p *binaryParser) Parse() (*Node, error) {
 	root := &Node{Name: "_FBX_ROOT"}
 
 	for p.err == nil {
+		start := p.r.position
 		node := p.readNode()
-		if node != nil {
-			root.AddChild(node)
+		if p.err == io.EOF && p.r.position != start {
+			p.err = io.ErrUnexpectedEOF
 		}
+		if node == nil {
+			break // NULL record. Only the footer follows.
+		}
+		root.AddChild(node)
 	}
 	if p.err != nil && p.err != io.EOF {
 		return nil, p.err
-- 
2.43.0


From 232341c728e74c12a2552f403c2e123fc48d8c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:21 +0000
Subject: [PATCH 078/154] fix: read binary fbx files from streams that cannot
 seek

---
 fbx/binary_parser.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index b6136a2..c01432f 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -26,11 +26,6 @@ func (r *positionReader) SkipTo(pos int64) error {
 	if offset < 0 {
 		return fmt.Errorf("cannot rewind")
 	}
-	r.position = pos
-	if s, ok := r.r.(io.Seeker); ok {
-		_, err := s.Seek(pos, 0)
-		return err
-	}
 	_, err := io.CopyN(ioutil.Discard, r, offset)
 	return err
 }
-- 
2.43.0


From 5f9801b05b9083515b36e29e2d52b646c960f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:22 +0000
Subject: [PATCH 079/154] fix: int and byte attributes of fbx nodes are numbers

---
 fbx/fbx_node.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 5880884..e096d15 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -162,7 +162,11 @@ func (p *Attribute) ToInt64(defvalue int64) int64 {
 	if p == nil {
 		return defvalue
 	}
-	if v, ok := p.Value.(int8); ok {
+	if v, ok := p.Value.(int); ok {
+		return int64(v)
+	} else if v, ok := p.Value.(uint8); ok {
+		return int64(v)
+	} else if v, ok := p.Value.(int8); ok {
 		return int64(v)
 	} else if v, ok := p.Value.(int16); ok {
 		return int64(v)
@@ -186,6 +190,10 @@ func (p *Attribute) ToFloat64(defvalue float64) float64 {
 		return float64(v)
 	} else if v, ok := p.Value.(float64); ok {
 		return float64(v)
+	} else if v, ok := p.Value.(int); ok {
+		return float64(v)
+	} else if v, ok := p.Value.(uint8); ok {
+		return float64(v)
 	} else if v, ok := p.Value.(int8); ok {
 		return float64(v)
 	} else if v, ok := p.Value.(int16); ok {
-- 
2.43.0


From 51d9a123990f2564703107a35e6974349a85bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:04 +0000
Subject: [PATCH 080/154] fix: numbers with exponents in ascii fbx files

---
 fbx/text_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 375ee9e..9e6b7a6 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -72,7 +72,7 @@ func (p *textParser) getToken() (tokenType, string) {
 		} else if c >= '0' && c <= '9' || c == '.' || c == '-' {
 			buf := []byte{c}
 			c = p.read()
-			for (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == '-') && p.err == nil {
+			for (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == 'E' || c == '-' || c == '+') && p.err == nil {
 				buf = append(buf, c)
 				c = p.read()
 			}
@@ -136,7 +136,7 @@ func (p *textParser) parseArrayProp() *Attribute {
 		} else if typ == Number {
 			v, _ := strconv.ParseFloat(s, 64)
 			dvalues = append(dvalues, v)
-			hasPoint = hasPoint || strings.Contains(s, ".")
+			hasPoint = hasPoint || strings.ContainsAny(s, ".eE")
 		} else {
 			p.errorf("Invalid token: %v", s)
 			break
@@ -179,7 +179,7 @@ func (p *textParser) parseNodeList() []*Node {
 					node.Children = p.parseNodeList()
 					break
 				} else if typ == Number {
-					if strings.Contains(s, ".") {
+					if strings.ContainsAny(s, ".eE") {
 						v, err := strconv.ParseFloat(s, 64)
 						if err != nil {
 							p.errorf("failed to parse float: '%v'", s)
-- 
2.43.0


From b1568f99e8657799de6c93227c26a2a66b9524c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:06 +0000
Subject: [PATCH 081/154] fix: large integers in arrays of ascii fbx files

---
 fbx/text_parser.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 9e6b7a6..add1b7c 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -126,7 +126,9 @@ func (p *textParser) parseArrayProp() *Attribute {
 		}
 	}
 	var dvalues []float64
+	var i64values []int64
 	var hasPoint bool
+	isInt32 := true
 	for i := 0; i < int(size) && p.err == nil; {
 		typ, s := p.getToken()
 		if typ == EOL || typ == Comma {
@@ -134,8 +136,14 @@ func (p *textParser) parseArrayProp() *Attribute {
 		} else if typ == BlockEnd {
 			break
 		} else if typ == Number {
-			v, _ := strconv.ParseFloat(s, 64)
+			v, err := strconv.ParseFloat(s, 64)
+			if err != nil {
+				p.errorf("failed to parse float: '%v'", s)
+			}
 			dvalues = append(dvalues, v)
+			i64, _ := strconv.ParseInt(s, 10, 64)
+			i64values = append(i64values, i64)
+			isInt32 = isInt32 && i64 == int64(int32(i64))
 			hasPoint = hasPoint || strings.ContainsAny(s, ".eE")
 		} else {
 			p.errorf("Invalid token: %v", s)
@@ -147,8 +155,11 @@ func (p *textParser) parseArrayProp() *Attribute {
 	}
 	var values interface{} = dvalues
 	if !hasPoint {
-		var i32values []int32
-		for _, v := range dvalues {
+		values = i64values
+	}
+	if !hasPoint && isInt32 {
+		i32values := make([]int32, 0, len(i64values))
+		for _, v := range i64values {
 			i32values = append(i32values, int32(v))
 		}
 		values = i32values
-- 
2.43.0


From 5ba488b3ec0b1caebf3d9958f374eafe55daab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:07 +0000
Subject: [PATCH 082/154] fix: empty arrays in ascii fbx files

---
 fbx/text_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index add1b7c..f8afd5a 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -129,7 +129,7 @@ func (p *textParser) parseArrayProp() *Attribute {
 	var i64values []int64
 	var hasPoint bool
 	isInt32 := true
-	for i := 0; i < int(size) && p.err == nil; {
+	for p.err == nil {
 		typ, s := p.getToken()
 		if typ == EOL || typ == Comma {
 			continue
-- 
2.43.0


From 8b11134b0f9e5a685ba6e8245403970da6bbf19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:09 +0000
Subject: [PATCH 083/154] fix: quotes in strings of ascii fbx files

---
 fbx/fbx_node.go    | 2 +-
 fbx/text_parser.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index e096d15..c8214cc 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -273,7 +273,7 @@ func (p *Attribute) String() string {
 		if len(segments) == 2 {
 			segments[0], segments[1] = segments[1], segments[0]
 		}
-		return fmt.Sprintf("%q", strings.Join(segments, "::"))
+		return "\"" + strings.ReplaceAll(strings.Join(segments, "::"), "\"", "&quot;") + "\""
 	case []byte:
 		return fmt.Sprintf("\"%v\"", v)
 	default:
diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index f8afd5a..9d7d95a 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -90,7 +90,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				buf = append(buf, c)
 				c = p.read()
 			}
-			return String, string(buf)
+			return String, strings.ReplaceAll(string(buf), "&quot;", "\"")
 		} else if c >= 'A' && c <= 'z' {
 			buf := []byte{}
 			for (c >= 'A' && c <= 'z' || c >= '0' && c <= '9' || c == '-') && p.err == nil {
-- 
2.43.0


From 86a468641a30e21c75bb0a4a6e7d01df1eb0defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:10 +0000
Subject: [PATCH 084/154] fix: write binary attributes and empty arrays of fbx
 nodes

---
 fbx/fbx_node.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index c8214cc..3a21fc4 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -1,6 +1,7 @@
 package fbx
 
 import (
+	"encoding/base64"
 	"fmt"
 	"io"
 	"reflect"
@@ -146,6 +147,11 @@ func (p AttributeList) ToVector3(x, y, z float32) *geom.Vector3 {
 	return &geom.Vector3{X: p.Get(0).ToFloat32(x), Y: p.Get(1).ToFloat32(y), Z: p.Get(2).ToFloat32(z)}
 }
 
+func (p Attribute) isArray() bool {
+	_, binary := p.Value.([]byte)
+	return !binary && reflect.ValueOf(p.Value).Kind() == reflect.Slice
+}
+
 func (p Attribute) Len() uint {
 	rv := reflect.ValueOf(p.Value)
 	if rv.Kind() == reflect.Slice {
@@ -275,7 +281,7 @@ func (p *Attribute) String() string {
 		}
 		return "\"" + strings.ReplaceAll(strings.Join(segments, "::"), "\"", "&quot;") + "\""
 	case []byte:
-		return fmt.Sprintf("\"%v\"", v)
+		return "\"" + base64.StdEncoding.EncodeToString(v) + "\""
 	default:
 		return fmt.Sprint(v)
 	}
@@ -291,7 +297,7 @@ func (n *Node) Dump(w io.Writer, d int, full bool) {
 			continue
 		}
 		s := p.String()
-		if p.Len() > 0 {
+		if p.isArray() {
 			s = fmt.Sprint("*", p.Len(), " ", arrayReplacer.Replace(s))
 		}
 		if i == 0 {
-- 
2.43.0


From a8450d931d2b5c9a88d4aa060bc9c504914cf7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:12 +0000
Subject: [PATCH 085/154] fix: report errors while writing fbx files

---
 fbx/fbx.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fbx/fbx.go b/fbx/fbx.go
index 122da9a..6b541a0 100644
--- a/fbx/fbx.go
+++ b/fbx/fbx.go
@@ -1,6 +1,7 @@
 package fbx
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"os"
@@ -29,12 +30,15 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
-
-	return Write(w, doc)
+	if err := Write(w, doc); err != nil {
+		w.Close()
+		return err
+	}
+	return w.Close()
 }
 
-func Write(w io.Writer, doc *Document) error {
+func Write(out io.Writer, doc *Document) error {
+	w := bufio.NewWriter(out)
 	fmt.Fprintln(w, "; FBX 7.5.0 project file")
 	fmt.Fprintln(w, "; Generator: https://github.com/binzume/modelconv")
 	fmt.Fprintln(w, "; -----------------------------------------------")
@@ -44,5 +48,5 @@ func Write(w io.Writer, doc *Document) error {
 			n.Dump(w, 0, true)
 		}
 	}
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 4854f1454a74db2b8fe5c30db64dd7aefdeabfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:13 +0000
Subject: [PATCH 086/154] fix: properties without values in fbx objects

---
 fbx/fbx_object.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index c3285c0..270820e 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -59,6 +59,9 @@ func (o *Obj) GetProperty(name string) *Property {
 	if o.properties == nil {
 		o.properties = map[string]*Property{}
 		for _, node := range o.FindChild("Properties70").GetChildren() {
+			if len(node.Attributes) < 4 {
+				continue
+			}
 			o.properties[node.Attr(0).ToString()] = &Property{
 				AttributeList: node.Attributes[4:],
 				Type:          node.Attr(1).ToString(),
-- 
2.43.0


From 0618c1d3700de957da92496a4ef930db0abb6677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:15 +0000
Subject: [PATCH 087/154] fix: contents and names of layer elements of new fbx
 geometries

---
 fbx/fbx_geometry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbx/fbx_geometry.go b/fbx/fbx_geometry.go
index 9e07936..cc44e59 100644
--- a/fbx/fbx_geometry.go
+++ b/fbx/fbx_geometry.go
@@ -101,6 +101,7 @@ func (g *Geometry) GetShapes() []*GeometryShape {
 
 func (g *Geometry) setLayerElementNode(name string, typeIndex int, values []*Node) {
 	node := NewNode(name, 0)
+	node.Children = values
 	if g.AddOrReplaceChild(node) {
 		layer := g.FindChild("Layer")
 		el := NewNode("LayerElement")
@@ -125,7 +126,7 @@ func (g *Geometry) SetLayerElementUVIndexed(uv []*geom.Vector2, indices []int32,
 	for _, v := range uv {
 		floatArray = append(floatArray, v.X, v.Y)
 	}
-	g.setLayerElementNode("LayerElementNormal", 0, []*Node{
+	g.setLayerElementNode("LayerElementUV", 0, []*Node{
 		NewNode("MappingInformationType", string(mappingType)),
 		NewNode("ReferenceInformationType", "IndexToDirect"),
 		NewNode("UV", floatArray),
-- 
2.43.0


From 3540359b70b3351c705abadfbfb518d8f6bd332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:16 +0000
Subject: [PATCH 088/154] fix: objects added to fbx documents behave like
 loaded ones

---
 fbx/fbx_document.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index b65a76b..441f002 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -149,6 +149,9 @@ func (doc *Document) AddObject(obj Object) int64 {
 		obj.GetNode().Attributes[0].Value = doc.newID()
 	}
 	doc.ObjectByID[obj.ID()] = obj
+	if mat, ok := obj.(*Material); ok {
+		doc.Materials = append(doc.Materials, mat)
+	}
 	objs := doc.RawNode.FindChild("Objects")
 	objs.Children = append(objs.Children, obj.GetNode())
 	return obj.ID()
@@ -156,6 +159,11 @@ func (doc *Document) AddObject(obj Object) int64 {
 
 func (doc *Document) AddConnection(parent, child Object) {
 	parent.AddRef(child)
+	if parentModel, ok := parent.(*Model); ok {
+		if childModel, ok := child.(*Model); ok {
+			childModel.Parent = parentModel
+		}
+	}
 	conns := doc.RawNode.FindChild("Connections")
 	conns.Children = append(conns.Children, NewNode("C", "OO", child.ID(), parent.ID()))
 }
-- 
2.43.0


From 9200fa6791b262f7615c98aed92456e2812d7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:37 +0000
Subject: [PATCH 089/154] fix: names of fbx bones, materials and shapes had
 their class appended

---
 converter/fbx2mqo.go | 13 +++++++++----
 fbx/fbx_model.go     |  2 +-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 59add09..5b84ff6 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -89,7 +89,7 @@ func (c *fbxToMqoState) convert() {
 
 func (c *fbxToMqoState) convertMaterial(m *fbx.Material) *mqo.Material {
 	mat := &mqo.Material{}
-	mat.Name = m.Name()
+	mat.Name = fbxName(m.Name(), "Material")
 	col := m.GetColor("DiffuseColor", &geom.Vector3{X: 1, Y: 1, Z: 1})
 	opacity := m.GetFactor("Opacity", 1)
 	mat.Color = geom.Vector4{X: col.X, Y: col.Y, Z: col.Z, W: opacity}
@@ -107,7 +107,7 @@ func (c *fbxToMqoState) convertMaterial(m *fbx.Material) *mqo.Material {
 
 func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.Matrix4) {
 	dst := c.dst
-	obj := mqo.NewObject(strings.TrimSuffix(strings.TrimPrefix(m.Name(), "Model::"), "::Model"))
+	obj := mqo.NewObject(fbxName(m.Name(), "Model"))
 	dst.Objects = append(dst.Objects, obj)
 	obj.UID = len(dst.Objects)
 	obj.Depth = d
@@ -173,6 +173,11 @@ func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.
 	}
 }
 
+// fbxName removes the class from object names. ("Class::name": ascii, "name::Class": binary)
+func fbxName(name, class string) string {
+	return strings.TrimSuffix(strings.TrimPrefix(name, class+"::"), "::"+class)
+}
+
 func hasGeometryNode(m *fbx.Model) bool {
 	if m.GetGeometry() != nil {
 		return true
@@ -306,7 +311,7 @@ func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 		pos := c.coordMat.Mul(m.GetWorldMatrix()).ApplyTo(&geom.Vector3{})
 		b := &mqo.Bone{
 			ID:     len(c.bones) + 1,
-			Name:   strings.TrimPrefix(m.Name(), "Model::"),
+			Name:   fbxName(m.Name(), "Model"),
 			Pos:    mqo.Vector3Attr{Vector3: *pos},
 			Parent: c.boneNodeMap[m.Parent],
 		}
@@ -331,7 +336,7 @@ func (c *fbxToMqoState) convertShape(node *fbx.GeometryShape, src *mqo.Object, g
 	indexes := node.GetIndexes()
 
 	obj := src.Clone()
-	obj.Name = node.Name()
+	obj.Name = fbxName(node.Name(), "Geometry")
 
 	if len(vertices) != len(indexes) {
 		log.Println("ERROR: Shape ", node.Name(), len(vertices), len(indexes))
diff --git a/fbx/fbx_model.go b/fbx/fbx_model.go
index 4c65d49..c147f6a 100644
--- a/fbx/fbx_model.go
+++ b/fbx/fbx_model.go
@@ -91,7 +91,7 @@ func (m *Model) GetChildModels() []*Model {
 func (m *Model) FindChildModel(name string) *Model {
 	for _, o := range m.Refs {
 		if m, ok := o.(*Model); ok {
-			if m.Name() == name+"::Model" {
+			if m.Name() == name+"::Model" || m.Name() == "Model::"+name {
 				return m
 			}
 		}
-- 
2.43.0


From 2b1751c3c332b112e1e10f2babf501523a405e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:38 +0000
Subject: [PATCH 090/154] fix: fbx bone weights are percentages in mqo

---
 converter/fbx2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 5b84ff6..9282c85 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -324,7 +324,7 @@ func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 	indexes := sub.GetIndexes()
 	if len(weights) == len(indexes) {
 		for i := range indexes {
-			bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i])
+			bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i]*100)
 		}
 	} else {
 		log.Println("ERR: Deformer weights ", len(weights), len(indexes))
-- 
2.43.0


From 967a79039d35ee4a5bb4e60dd424015e839eb38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:39 +0000
Subject: [PATCH 091/154] fix: convert all mappings of fbx normals and uvs

---
 converter/fbx2mqo.go | 76 +++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 9282c85..a92c800 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -202,26 +202,11 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 	matAllSame := matType == "AllSame" && len(matArray) > 0
 	normalNode := g.GetLayerElementNormal()
 	normArray := normalNode.Array.GetVec3Array()
-	normByVertex := normalNode.GetMappingInformationType() == "ByControlPoint" && len(normArray) >= len(g.Vertices)
-	normByPolygonVertex := normalNode.GetMappingInformationType() == "ByPolygonVertex"
+	normIndex := layerElementIndexes(normalNode, g, len(normArray))
 
 	uvnode := g.GetLayerElementUV()
-	var uv []*geom.Vector2
-	var uvIndex []int32
-	if uvnode.GetMappingInformationType() == "ByPolygonVertex" {
-		uv = uvnode.Array.GetVec2Array()
-		if uvnode.GetReferenceInformationType() == "IndexToDirect" {
-			uvIndex = uvnode.GetIndexes()
-			if len(uvIndex) < g.PolygonVertexCount {
-				uv = nil
-				uvIndex = nil
-			}
-		} else {
-			if len(uv) < g.PolygonVertexCount {
-				uv = nil
-			}
-		}
-	}
+	uv := uvnode.Array.GetVec2Array()
+	uvIndex := layerElementIndexes(uvnode, g, len(uv))
 
 	rs := transform.Clone()
 	rs[12], rs[13], rs[14] = 0, 0, 0
@@ -241,22 +226,12 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 		}
 		for n, v := range f {
 			face.Verts = append(face.Verts, v)
-			// TODO: normal transformation
-			if normByVertex && v < len(normArray) {
-				face.Normals = append(face.Normals, normalTransform.ApplyTo(normArray[v]).Normalize())
-			} else if normByPolygonVertex && vcount+n < len(normArray) {
-				face.Normals = append(face.Normals, normalTransform.ApplyTo(normArray[vcount+n]).Normalize())
-			}
-		}
-		if uvIndex != nil { // Indexed
-			for n := range f {
-				v := uv[uvIndex[vcount+n]]
-				face.UVs = append(face.UVs, geom.Vector2{X: v.X, Y: 1 - v.Y})
+			if normIndex != nil {
+				face.Normals = append(face.Normals, normalTransform.ApplyTo(normArray[normIndex[vcount+n]]).Normalize())
 			}
-		} else if uv != nil {
-			for n := range f {
-				v := uv[vcount+n]
-				face.UVs = append(face.UVs, geom.Vector2{X: v.X, Y: 1 - v.Y})
+			if uvIndex != nil {
+				t := uv[uvIndex[vcount+n]]
+				face.UVs = append(face.UVs, geom.Vector2{X: t.X, Y: 1 - t.Y})
 			}
 		}
 		vcount += len(f)
@@ -289,6 +264,41 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 	return shapes
 }
 
+// layerElementIndexes returns an index of the element's array for each polygon vertex. (nil if not available)
+func layerElementIndexes(e *fbx.LayerElement, g *fbx.Geometry, count int) []int {
+	indexed := e.GetReferenceInformationType() != "Direct" && e.IndexNode != nil
+	indexes := e.GetIndexes()
+	mapping := e.GetMappingInformationType()
+	var result []int
+	for i, f := range g.Polygons {
+		for _, v := range f {
+			idx := 0
+			switch mapping {
+			case fbx.ByPolygonVertex:
+				idx = len(result)
+			case fbx.ByControlPoint, fbx.ByVertice, "ByVertex":
+				idx = v
+			case fbx.ByPolygon:
+				idx = i
+			case fbx.AllSame:
+			default:
+				return nil
+			}
+			if indexed {
+				if idx >= len(indexes) {
+					return nil
+				}
+				idx = int(indexes[idx])
+			}
+			if idx < 0 || idx >= count {
+				return nil
+			}
+			result = append(result, idx)
+		}
+	}
+	return result
+}
+
 func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 	model := sub.GetTarget()
 	if model == nil {
-- 
2.43.0


From 88f8217546ad9b52afa30fa5cad84cfdf8e7716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:40 +0000
Subject: [PATCH 092/154] fix: winding of mirrored fbx models

---
 converter/fbx2mqo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index a92c800..7c36d76 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -235,7 +235,9 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 			}
 		}
 		vcount += len(f)
-		face.Flip()
+		if transform.Det() > 0 {
+			face.Flip()
+		}
 		obj.Faces = append(obj.Faces, face)
 	}
 
-- 
2.43.0


From b4d67cda3469e823c50d82ed79935d2bd1381c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:41 +0000
Subject: [PATCH 093/154] fix: meshes below bones of fbx documents were lost

---
 converter/fbx2mqo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 7c36d76..0a6bf5f 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -77,7 +77,7 @@ func (c *fbxToMqoState) convert() {
 		return
 	}
 	for _, m := range c.src.Scene.GetChildModels() {
-		if c.ConvertWholeNode || (m.Kind() != "LimbNode" && hasGeometryNode(m)) {
+		if c.ConvertWholeNode || hasGeometryNode(m) {
 			c.convertModel(m, c.ObjectDepth, transform)
 		}
 	}
@@ -167,7 +167,7 @@ func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.
 		}
 	}
 	for _, m := range m.GetChildModels() {
-		if c.ConvertWholeNode || m.Kind() != "LimbNode" {
+		if c.ConvertWholeNode || m.Kind() != "LimbNode" || hasGeometryNode(m) {
 			c.convertModel(m, d+1, transform)
 		}
 	}
-- 
2.43.0


From a8bab649adcfe5ab9e6aa32013ec3eb92539e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:42 +0000
Subject: [PATCH 094/154] fix: use the texture of the diffuse color of fbx
 materials

---
 fbx/fbx_document.go |  8 ++++++--
 fbx/fbx_material.go |  6 +++++-
 fbx/fbx_object.go   | 10 ++++++++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index 441f002..9d1c2a7 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -125,7 +125,11 @@ func BuildDocument(root *Node) (*Document, error) {
 				to = objectByName[node.Attr(2).ToString()]
 			}
 			if to != nil && from != nil {
-				to.AddRef(from)
+				if ctype == "OP" {
+					to.AddPropRef(from, node.Attr(3).ToString())
+				} else {
+					to.AddRef(from)
+				}
 
 				// build model tree
 				if toModel, ok := to.(*Model); ok {
@@ -169,7 +173,7 @@ func (doc *Document) AddConnection(parent, child Object) {
 }
 
 func (doc *Document) AddPropConnection(parent, child Object, prop string) {
-	parent.AddRef(child)
+	parent.AddPropRef(child, prop)
 	conns := doc.RawNode.FindChild("Connections")
 	conns.Children = append(conns.Children, NewNode("C", "OP", child.ID(), parent.ID(), prop))
 }
diff --git a/fbx/fbx_material.go b/fbx/fbx_material.go
index b2efff9..aa0c28c 100644
--- a/fbx/fbx_material.go
+++ b/fbx/fbx_material.go
@@ -32,7 +32,11 @@ func (m *Material) GetFactor(name string, def float32) float32 {
 }
 
 func (m *Material) GetTexture(name string) *Obj {
-	// TOOD: m.GetPropertyRef(name)...
+	for _, o := range m.propRefs[name] {
+		if texture, ok := o.(*Obj); ok && texture.NodeName() == "Texture" {
+			return texture
+		}
+	}
 	textures := m.FindRefs("Texture")
 	if len(textures) > 0 {
 		return textures[0].(*Obj)
diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index 270820e..9ae2345 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -21,12 +21,14 @@ type Object interface {
 	SetProperty(name string, prop *Property) *Property
 	FindRefs(name string) []Object
 	AddRef(o Object)
+	AddPropRef(o Object, prop string)
 }
 
 type Obj struct {
 	*Node
 	Template   *Obj
 	Refs       []Object
+	propRefs   map[string][]Object
 	properties map[string]*Property // lazty initialize
 }
 
@@ -127,6 +129,14 @@ func (o *Obj) AddRef(ref Object) {
 	o.Refs = append(o.Refs, ref)
 }
 
+func (o *Obj) AddPropRef(ref Object, prop string) {
+	o.AddRef(ref)
+	if o.propRefs == nil {
+		o.propRefs = map[string][]Object{}
+	}
+	o.propRefs[prop] = append(o.propRefs[prop], ref)
+}
+
 func (o *Obj) AddOrReplaceChild(node *Node) bool {
 	for i, c := range o.Children {
 		if c.Name == node.Name {
-- 
2.43.0


From 1b4e574544ea5aa5bfe0e8d12b3a91f48e5355cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:43 +0000
Subject: [PATCH 095/154] fix: negative indexes in fbx geometries

---
 converter/fbx2mqo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 0a6bf5f..3986f97 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -221,7 +221,7 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 		} else if matAllSame {
 			matIdx = int(matArray[0])
 		}
-		if matIdx < len(materialIDs) {
+		if matIdx >= 0 && matIdx < len(materialIDs) {
 			face.Material = materialIDs[matIdx]
 		}
 		for n, v := range f {
@@ -356,7 +356,7 @@ func (c *fbxToMqoState) convertShape(node *fbx.GeometryShape, src *mqo.Object, g
 	}
 
 	for i, idx := range indexes {
-		if int(idx) < len(obj.Vertexes) {
+		if idx >= 0 && int(idx) < len(obj.Vertexes) {
 			obj.Vertexes[idx] = transfrom.ApplyTo(g.Vertices[idx].Add(vertices[i]))
 		}
 	}
-- 
2.43.0


From 0645be6e7307b563072f8c785eed48f2b1d1e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:33 +0000
Subject: [PATCH 096/154] fix: empty arrays of fbx nodes had one element

---
 fbx/fbx_node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 3a21fc4..7b59b1c 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -82,7 +82,7 @@ func (n *Node) GetString() string {
 
 func (n *Node) GetInt32Array() []int32 {
 	array := n.Attr(0).ToInt32Array()
-	if array == nil && n.Attr(0) != nil {
+	if array == nil && n.Attr(0) != nil && !n.Attr(0).isArray() {
 		for _, attr := range n.Attributes {
 			array = append(array, int32(attr.ToInt(0)))
 		}
@@ -92,7 +92,7 @@ func (n *Node) GetInt32Array() []int32 {
 
 func (n *Node) GetFloat32Array() []float32 {
 	array := n.Attr(0).ToFloat32Array()
-	if array == nil && n.Attr(0) != nil {
+	if array == nil && n.Attr(0) != nil && !n.Attr(0).isArray() {
 		for _, attr := range n.Attributes {
 			array = append(array, attr.ToFloat32(0))
 		}
-- 
2.43.0


From cd2889cb7ed98ece78ee974ce075788880f225d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:00 +0000
Subject: [PATCH 097/154] fix: unitypackage: extract entries without directory
 entries, reject entries outside of the destination

---
 unity/unity_assets.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 98e357e..944e7eb 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -3,6 +3,7 @@ package unity
 import (
 	"archive/tar"
 	"compress/gzip"
+	"fmt"
 	"io"
 	"io/fs"
 	"io/ioutil"
@@ -210,6 +211,9 @@ func extractPackage(pacakage, dst string) error {
 		}
 
 		name := filepath.Join(dst, header.Name)
+		if rel, err := filepath.Rel(dst, name); err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return fmt.Errorf("invalid path in package: %s", header.Name)
+		}
 
 		switch header.Typeflag {
 		case tar.TypeDir:
@@ -219,6 +223,9 @@ func extractPackage(pacakage, dst string) error {
 				}
 			}
 		case tar.TypeReg:
+			if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
+				return err
+			}
 			f, err := os.Create(name)
 			if err != nil {
 				return err
-- 
2.43.0


From dbee4632e44182065efa0807a958016ce9a89944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:01 +0000
Subject: [PATCH 098/154] fix: unitypackage: remove temporary directory when
 the package could not be opened

---
 unity/unity_assets.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 944e7eb..ee0b341 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -72,9 +72,15 @@ func OpenPackage(packagePath string) (Assets, error) {
 	}
 	err = extractPackage(packagePath, tmpDir)
 	if err != nil {
+		os.RemoveAll(tmpDir)
 		return nil, err
 	}
-	return scanPackage(tmpDir, true, packagePath)
+	pkg, err := scanPackage(tmpDir, true, packagePath)
+	if err != nil {
+		os.RemoveAll(tmpDir)
+		return nil, err
+	}
+	return pkg, nil
 }
 
 type assets struct {
-- 
2.43.0


From 52962073d100342c23bb94208fdeec47e14e7f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:03 +0000
Subject: [PATCH 099/154] fix: unitypackage: asset path is the first line of
 pathname

---
 unity/unity_assets.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index ee0b341..a01bb0b 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -175,7 +175,7 @@ func scanPackage(packageDir string, tmp bool, originalPath string) (*packageFs,
 		if err != nil {
 			return nil, err
 		}
-		path := string(b)
+		path := strings.TrimRight(strings.SplitN(string(b), "\n", 2)[0], "\r")
 		guid := f.Name()
 		asset := &Asset{
 			GUID: guid,
-- 
2.43.0


From 28df5a1954040dd28f4b97f741a63d359677d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:37 +0000
Subject: [PATCH 100/154] fix: unity to mqo: keep faces of mirrored objects
 facing outward, do not share uv slices

---
 converter/unity2mqo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 622e4cf..f542fe8 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -381,7 +381,10 @@ func AddGeometry(o *mqo.Object, tr *geom.Matrix4, mat int, vs []*geom.Vector3, f
 		}
 		face := &mqo.Face{Material: mat, Verts: f}
 		if len(uvs) > n {
-			face.UVs = uvs[n]
+			face.UVs = append([]geom.Vector2(nil), uvs[n]...)
+		}
+		if tr.Det() < 0 {
+			face.Flip()
 		}
 		o.Faces = append(o.Faces, face)
 	}
-- 
2.43.0


From c6efe5f5db437728534d40c3958066f873ba4abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:38 +0000
Subject: [PATCH 101/154] fix: unity to mqo: accept .FBX

---
 converter/unity2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index f542fe8..fad0e9c 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -336,7 +336,7 @@ func (c *unityToMqoState) importMesh(mesh *unity.Ref, obj *mqo.Object, materials
 	log.Println("Import mesh:", asset, meta.GetRecycleNameByFileID(mesh.FileID))
 
 	if c.lastFbxID != mesh.GUID { // TODO
-		if !strings.HasSuffix(asset.Path, ".fbx") {
+		if !strings.HasSuffix(strings.ToLower(asset.Path), ".fbx") {
 			return fmt.Errorf("not supported: %s", asset.Path)
 		}
 
-- 
2.43.0


From b9a0974f266e0b1d4bc97b80094d76112284749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:39 +0000
Subject: [PATCH 102/154] fix: unity: prefab modifications with values that
 look like numbers or booleans

---
 unity/unity.go       |  8 ++++----
 unity/unity_scene.go | 10 ++--------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/unity/unity.go b/unity/unity.go
index c205f46..80a2f2a 100644
--- a/unity/unity.go
+++ b/unity/unity.go
@@ -117,10 +117,10 @@ func (o *GameObject) GetTransform() *Transform {
 type PrefabInstance struct {
 	Modification struct {
 		Modifications []struct {
-			Target          *Ref        `yaml:"target"`
-			PropertyPath    string      `yaml:"propertyPath"`
-			Value           interface{} `yaml:"value"`
-			ObjectReference *Ref        `yaml:"objectReference"`
+			Target          *Ref   `yaml:"target"`
+			PropertyPath    string `yaml:"propertyPath"`
+			Value           string `yaml:"value"`
+			ObjectReference *Ref   `yaml:"objectReference"`
 		} `yaml:"m_Modifications"`
 		TransformParent   *Ref          `yaml:"m_TransformParent"`
 		RemovedComponents []interface{} `yaml:"m_RemovedComponents"`
diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 1008096..8f82dbf 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -118,13 +118,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 					continue
 				}
 				var flaotValue float32
-				if v, ok := mod.Value.(float32); ok {
-					flaotValue = v
-				} else if v, ok := mod.Value.(float64); ok {
-					flaotValue = float32(v)
-				} else if v, ok := mod.Value.(int64); ok {
-					flaotValue = float32(v)
-				} else if v, ok := mod.Value.(int); ok {
+				if v, err := strconv.ParseFloat(mod.Value, 32); err == nil {
 					flaotValue = float32(v)
 				}
 				prop := strings.Split(mod.PropertyPath, ".")
@@ -148,7 +142,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 							} else if v, ok := field.(**Ref); ok {
 								*v = mod.ObjectReference
 							} else if v, ok := field.(*string); ok {
-								*v, _ = mod.Value.(string)
+								*v = mod.Value
 							} else if v, ok := field.(*Vector3); ok && len(prop) == 2 {
 								if prop[1] == "x" {
 									v.X = flaotValue
-- 
2.43.0


From b951bb1ae86bd70ecedf389863641393b510fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:41 +0000
Subject: [PATCH 103/154] fix: unity: objects added to prefab instances

---
 unity/unity_scene.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 8f82dbf..c2144b0 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -215,6 +215,19 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 			parent.AddChild(child)
 		}
 	}
+
+	// Objects added to prefab instances: the parent is a stripped transform
+	for _, obj := range objects {
+		tr := obj.GetTransform()
+		if tr == nil || obj.Scene != scene || !tr.Father.IsValid() {
+			continue
+		}
+		if father, ok := scene.GetElement(&tr.Father).(*Transform); ok {
+			if parent := scene.GetTransform(&tr.Father, nil); parent != nil && parent != father {
+				parent.AddChild(tr)
+			}
+		}
+	}
 	return scene, nil
 }
 
-- 
2.43.0


From 3c93c43c1a08df963fb0fe46bb40c1d60b8e9a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:21 +0000
Subject: [PATCH 104/154] fix: unity to mqo: mirror collider centers like
 everything else, scale box colliders per axis

---
 converter/unity2mqo.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index fad0e9c..184d6a7 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -228,8 +228,8 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	for _, co := range boxColliders {
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "BOX",
-			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&co.Center)),
-			Size:     mqo.Vector3XmlAttr(*co.Size.Scale(sc.X * 0.5)),
+			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(flipZ(&co.Center))),
+			Size:     mqo.Vector3XmlAttr{X: co.Size.X * sc.X * 0.5, Y: co.Size.Y * sc.Y * 0.5, Z: co.Size.Z * sc.Z * 0.5},
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
 	}
@@ -238,7 +238,7 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	for _, co := range sphereColliders {
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "SPHERE",
-			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&co.Center)),
+			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(flipZ(&co.Center))),
 			Size:     mqo.Vector3XmlAttr{X: co.Radius * sc.X, Y: co.Radius * sc.Y, Z: co.Radius * sc.Z},
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
@@ -248,7 +248,7 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	for _, co := range capsuleColliders {
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "CAPSULE",
-			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&co.Center)),
+			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(flipZ(&co.Center))),
 			Size:     mqo.Vector3XmlAttr{X: co.Radius * sc.X, Y: (co.Height - co.Radius*2) * sc.Y, Z: co.Radius * sc.Z},
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
@@ -302,6 +302,11 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	}
 }
 
+// flipZ converts a position from Unity (left-handed) coordinates.
+func flipZ(v *geom.Vector3) *geom.Vector3 {
+	return &geom.Vector3{X: v.X, Y: v.Y, Z: -v.Z}
+}
+
 func (c *unityToMqoState) saveTexrure(assets unity.Assets, texAsset *unity.Asset) (string, error) {
 	texDir := filepath.Join(filepath.Dir(assets.GetSourcePath()), "saved_textures")
 	texPath := filepath.Join(texDir, texAsset.GUID+"_"+filepath.Base(texAsset.Path))
-- 
2.43.0


From a3404fb5f02c53ce07f784fe5957504fbec81149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:48 +0000
Subject: [PATCH 105/154] fix: fbx: FindChildModel finds nested models

---
 fbx/fbx_model.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fbx/fbx_model.go b/fbx/fbx_model.go
index c147f6a..70e4de9 100644
--- a/fbx/fbx_model.go
+++ b/fbx/fbx_model.go
@@ -96,6 +96,11 @@ func (m *Model) FindChildModel(name string) *Model {
 			}
 		}
 	}
+	for _, child := range m.GetChildModels() {
+		if found := child.FindChildModel(name); found != nil {
+			return found
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From edda047ea14b7ebf30b0c928971d24caa875e71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:15 +0000
Subject: [PATCH 106/154] fix: find the Assets directory in paths with other
 directories named like it

---
 cmd/modelconv/main.go  | 2 +-
 cmd/modelconv/utils.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index e8c526f..4a26545 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -382,7 +382,7 @@ func main() {
 	if isUnity(inputExt) && !strings.HasSuffix(input, ".unitypackage") {
 		names := strings.SplitN(input, "#", 2)
 		if len(names) == 1 {
-			p := strings.Index(filepath.ToSlash(input), "Assets/")
+			p := indexAssetsDir(input)
 			names = []string{input[:p+6], input[p:]}
 		}
 		input = names[0]
diff --git a/cmd/modelconv/utils.go b/cmd/modelconv/utils.go
index 4d260eb..0511032 100644
--- a/cmd/modelconv/utils.go
+++ b/cmd/modelconv/utils.go
@@ -26,6 +26,11 @@ func loadAnimation(input string) (*mmd.Animation, error) {
 	return p.Parse()
 }
 
+// indexAssetsDir returns the position of the "Assets" directory in the path.
+func indexAssetsDir(input string) int {
+	return strings.Index("/"+filepath.ToSlash(input), "/Assets/")
+}
+
 func loadDocument(input string) (*mqo.Document, error) {
 	ext := strings.ToLower(filepath.Ext(input))
 	switch {
@@ -60,7 +65,7 @@ func loadDocument(input string) (*mqo.Document, error) {
 	case isUnity(ext):
 		names := strings.SplitN(input, "#", 2)
 		if len(names) == 1 {
-			p := strings.Index(filepath.ToSlash(input), "Assets/")
+			p := indexAssetsDir(input)
 			if p >= 0 && ext != ".unitypackage" {
 				names = []string{input[:p+6], input[p:]}
 			} else {
-- 
2.43.0


From c0df7554dcf8402dc14c55c1f9630410d90deb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:54 +0000
Subject: [PATCH 107/154] fix: unity: prefabs that contain themselves

---
 unity/unity_scene.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index c2144b0..ab41754 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -34,6 +34,17 @@ func LoadScene(assets Assets, scenePath string) (*Scene, error) {
 }
 
 func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
+	return loadSceneAsset(assets, sceneAsset, nil)
+}
+
+// parents: GUIDs of the scenes being loaded
+func loadSceneAsset(assets Assets, sceneAsset *Asset, parents []string) (*Scene, error) {
+	for _, guid := range parents {
+		if guid == sceneAsset.GUID {
+			return nil, fmt.Errorf("Prefab contains itself: %s", sceneAsset.Path)
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], sceneAsset.GUID)
 	r, err := assets.Open(sceneAsset.Path)
 	if err != nil {
 		return nil, err
@@ -91,7 +102,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				log.Println("prefab not found", prefab.SourcePrefab)
 				continue
 			}
-			s, err := LoadSceneAsset(assets, prefabAsset)
+			s, err := loadSceneAsset(assets, prefabAsset, parents)
 			if err != nil {
 				log.Println("failed to loadPrefab", prefab.SourcePrefab)
 				continue
-- 
2.43.0


From 979f8875aea2823d09a226c1b9b9395ff8a2e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:56 +0000
Subject: [PATCH 108/154] fix: unity: documents without a body or with invalid
 references

---
 unity/unity_scene.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index ab41754..59f5393 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -80,6 +80,10 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, parents []string) (*Scene,
 				GameObject *GameObject `yaml:"GameObject" typeid:"unity3d.com,2011:1"`
 			}
 			err = doc.Decode(&d)
+			if d.GameObject == nil {
+				log.Println("invalid GameObject", err, scene.GUID, fileId)
+				continue
+			}
 			d.GameObject.init(scene)
 			element = d.GameObject
 			objects = append(objects, d.GameObject)
@@ -113,7 +117,10 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, parents []string) (*Scene,
 				root := s.Objects[0]
 				tr := root.GetTransform()
 				if tr != nil {
-					tr.Father = *prefab.Modification.TransformParent
+					tr.Father = Ref{}
+					if prefab.Modification.TransformParent != nil {
+						tr.Father = *prefab.Modification.TransformParent
+					}
 					tr.Father.GUID = scene.GUID
 					for _, c := range root.Components {
 						if _, ok := s.GetElement2(&c.Ref, root.PrefabInstance).(*Transform); ok {
@@ -194,7 +201,7 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, parents []string) (*Scene,
 			if fieldid, ok := componentTags[doc.Tag]; ok {
 				var components componentDesc
 				err = doc.Decode(&components)
-				if component, _ := reflect.ValueOf(components).Field(fieldid).Interface().(Component); component != nil {
+				if component, _ := reflect.ValueOf(components).Field(fieldid).Interface().(Component); component != nil && !reflect.ValueOf(component).IsNil() {
 					component.init(scene)
 					element = component
 				}
-- 
2.43.0


From dbff59b988e002e2fafdcdff5a4a5e01e57e1bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:39 +0000
Subject: [PATCH 109/154] fix: unity to mqo: transforms that contain themselves

---
 converter/unity2mqo.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 184d6a7..312e079 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -37,6 +37,9 @@ type unityToMqoState struct {
 	// TODL: LRU cache
 	lastFbx   *fbx.Document
 	lastFbxID string
+
+	// objects being converted
+	ancestors map[*unity.GameObject]bool
 }
 
 func NewUnityToMQOConverter(options *UnityToMQOOption) *UnityToMQOConverter {
@@ -61,6 +64,7 @@ func (conv *UnityToMQOConverter) Convert(secne *unity.Scene) (*mqo.Document, err
 			uvScale *geom.Vector2
 		}{},
 		matToGUID: map[int]string{},
+		ancestors: map[*unity.GameObject]bool{},
 	}
 
 	s := state.ConvertScale
@@ -93,6 +97,9 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 	obj.Scale = &tr.LocalScale
 	obj.SetRotation(geom.NewQuaternion(-tr.LocalRotation.X, -tr.LocalRotation.Y, tr.LocalRotation.Z, tr.LocalRotation.W))
 
+	c.ancestors[o] = true
+	defer delete(c.ancestors, o)
+
 	transform := parentTransform.Mul(tr.GetMatrix())
 
 	var meshFilter *unity.MeshFilter
@@ -213,6 +220,10 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 			log.Println("GameObject not found", child.GameObject, tr.CorrespondingSourceObject)
 			continue
 		}
+		if c.ancestors[childObj] {
+			log.Println("GameObject contains itself", childObj.Name)
+			continue
+		}
 		c.convertObject(childObj, d+1, transform, active)
 	}
 }
-- 
2.43.0


From 3ce3462f738a7ef29c388979968c5eaeb33f6882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:13 +0000
Subject: [PATCH 110/154] fix: unity: empty entries in component lists

---
 unity/unity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/unity.go b/unity/unity.go
index 80a2f2a..024fdf4 100644
--- a/unity/unity.go
+++ b/unity/unity.go
@@ -68,7 +68,7 @@ type GameObject struct {
 	IsActive  int    `yaml:"m_IsActive"`
 	TagString string `yaml:"m_TagString"`
 
-	Components []*struct {
+	Components []struct {
 		Ref Ref `yaml:"component"`
 	} `yaml:"m_Component"`
 
-- 
2.43.0


From cb1eaf5426ebc006de4eb1ae0a9291cfa4636082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:50 +0000
Subject: [PATCH 111/154] fix: unity: document tags without a suffix

---
 unity/unity_yaml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unity/unity_yaml.go b/unity/unity_yaml.go
index 5d14fd0..f3bb901 100644
--- a/unity/unity_yaml.go
+++ b/unity/unity_yaml.go
@@ -61,8 +61,8 @@ func (s *yamlSplitter) getTag() string {
 	tag := s.readToken()
 	if len(tag) > 0 && tag[0] == '!' {
 		t := strings.SplitN(tag[1:], "!", 2)
-		if v, ok := s.tags[t[0]]; ok {
-			tag = v + tag[len(t[0])+2:]
+		if v, ok := s.tags[t[0]]; ok && len(t) == 2 {
+			tag = v + t[1]
 		}
 	}
 	return tag
-- 
2.43.0


From 35a2e178039afde50e36388dd7e6a86aa4653676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:14 +0000
Subject: [PATCH 112/154] fix: unity to mqo: empty entries in material lists,
 colliders without a mesh

---
 converter/unity2mqo.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 312e079..e87c98e 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -107,7 +107,10 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 	if o.GetComponent(&meshFilter) && o.GetComponent(&meshRenderer) && meshFilter.Mesh.IsValid() {
 		var materials []int
 		for _, materialRef := range meshRenderer.Materials {
-			matGUID := materialRef.GUID
+			matGUID := ""
+			if materialRef != nil {
+				matGUID = materialRef.GUID
+			}
 			if m, ok := c.mat[matGUID]; ok {
 				materials = append(materials, m.index)
 				continue
@@ -267,6 +270,9 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	var meshColliders []*unity.MeshCollider
 	o.GetComponents(&meshColliders)
 	for _, co := range meshColliders {
+		if co.Mesh == nil {
+			continue
+		}
 		if name, ok := unity.UnityMeshes[*co.Mesh]; ok {
 			switch name {
 			case "Cube":
-- 
2.43.0


From af50bab9d1e605ce495206b6399a9dec65a65276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:16 +0000
Subject: [PATCH 113/154] fix: unity: invalid array indices in prefab
 modifications

---
 unity/unity_scene.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 59f5393..f0eaa5d 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -148,8 +148,8 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, parents []string) (*Scene,
 					if y := typ.Field(i).Tag.Get("yaml"); y != "" {
 						if (strings.Split(y, ",")[0]) == prop[0] {
 							field := reflect.ValueOf(target).Elem().Field(i).Addr().Interface()
-							if len(prop) == 3 && prop[1] == "Array" && strings.HasPrefix(prop[2], "data[") {
-								if idx, err := strconv.ParseInt(prop[2][5:len(prop[2])-1], 10, 32); err == nil && int(idx) < reflect.ValueOf(target).Elem().Field(i).Len() {
+							if len(prop) == 3 && prop[1] == "Array" && strings.HasPrefix(prop[2], "data[") && strings.HasSuffix(prop[2], "]") && reflect.TypeOf(field).Elem().Kind() == reflect.Slice {
+								if idx, err := strconv.ParseUint(prop[2][5:len(prop[2])-1], 10, 31); err == nil && int(idx) < reflect.ValueOf(target).Elem().Field(i).Len() {
 									field = reflect.ValueOf(target).Elem().Field(i).Index(int(idx)).Addr().Interface()
 								}
 							}
-- 
2.43.0


From 3ba003103e5ceb5a0e9b8ba26525d6a9bb9bee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:38 +0000
Subject: [PATCH 114/154] fix: unity to mqo: keep saved textures in
 saved_textures

---
 converter/unity2mqo.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index e87c98e..85ece95 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -326,8 +326,9 @@ func flipZ(v *geom.Vector3) *geom.Vector3 {
 
 func (c *unityToMqoState) saveTexrure(assets unity.Assets, texAsset *unity.Asset) (string, error) {
 	texDir := filepath.Join(filepath.Dir(assets.GetSourcePath()), "saved_textures")
-	texPath := filepath.Join(texDir, texAsset.GUID+"_"+filepath.Base(texAsset.Path))
-	texName := "saved_textures/" + texAsset.GUID + "_" + filepath.Base(texAsset.Path)
+	texFile := filepath.Base(texAsset.GUID + "_" + filepath.Base(texAsset.Path))
+	texPath := filepath.Join(texDir, texFile)
+	texName := "saved_textures/" + texFile
 	_ = os.Mkdir(texDir, 0755)
 	if _, err := os.Stat(texPath); err == nil {
 		return texName, nil
-- 
2.43.0


From 43ac876100d81ad2969bcc250ec6bf94b34253e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 115/154] fix: unity: modifications of documents that are not
 objects

---
 unity/unity_scene.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index f0eaa5d..87bbdb0 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -140,10 +140,11 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, parents []string) (*Scene,
 					flaotValue = float32(v)
 				}
 				prop := strings.Split(mod.PropertyPath, ".")
-				typ := reflect.TypeOf(target).Elem()
-				if typ.Kind() != reflect.Struct {
+				typ := reflect.TypeOf(target)
+				if typ.Kind() != reflect.Ptr || typ.Elem().Kind() != reflect.Struct {
 					continue
 				}
+				typ = typ.Elem()
 				for i := 0; i < typ.NumField(); i++ {
 					if y := typ.Field(i).Tag.Get("yaml"); y != "" {
 						if (strings.Split(y, ",")[0]) == prop[0] {
-- 
2.43.0


From 928e27fb021491a1e9ddfc9c4813a8c66c7feac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:11 +0000
Subject: [PATCH 116/154] fix: vrm: convert byte joints of interleaved or
 offset accessors

---
 gltfutil/gltf_joint.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 09258aa..f799f51 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -2,10 +2,12 @@ package gltfutil
 
 import (
 	"encoding/binary"
+	"log"
 	"math"
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/qmuntal/gltf"
+	"github.com/qmuntal/gltf/modeler"
 )
 
 type Quaternion = geom.Vector4
@@ -92,34 +94,28 @@ func ResetJointMatrix(doc *gltf.Document) {
 }
 
 func FixJointComponentType(doc *gltf.Document) {
-	fixedbuffer := map[uint32]bool{}
 	for _, mesh := range doc.Meshes {
 		for _, primitiv := range mesh.Primitives {
 			for k, attr := range primitiv.Attributes {
 				accessor := doc.Accessors[attr]
-				if k == "JOINTS_0" && doc.Accessors[attr].ComponentType == 2 { // byte
-					bufferView := doc.BufferViews[*accessor.BufferView]
-					buffer := doc.Buffers[bufferView.Buffer]
-
-					accessor.ComponentType = 4
-					if fixedbuffer[*accessor.BufferView] {
+				if k == "JOINTS_0" && accessor.ComponentType == gltf.ComponentUbyte {
+					// byte to uint16
+					joints, err := modeler.ReadJoints(doc, accessor, nil)
+					if err != nil {
+						log.Print(err)
 						continue
 					}
-					fixedbuffer[*accessor.BufferView] = true
-
-					// byte to uint16
-					src := buffer.Data[bufferView.ByteOffset : bufferView.ByteOffset+bufferView.ByteLength]
-					dst := make([]byte, bufferView.ByteLength*2)
-					for i, b := range src {
-						binary.LittleEndian.PutUint16(dst[i*2:i*2+2], uint16(b))
+					if len(doc.Buffers) > 0 {
+						buffer := doc.Buffers[len(doc.Buffers)-1]
+						for len(buffer.Data)%4 != 0 {
+							buffer.Data = append(buffer.Data, 0)
+						}
+						buffer.ByteLength = uint32(len(buffer.Data))
 					}
-
-					bufferView.ByteLength *= 2
-					bufferView.ByteStride *= 2
-					bufferView.ByteOffset = uint32(len(buffer.Data))
-
-					buffer.Data = append(buffer.Data, dst...)
-					buffer.ByteLength += uint32(len(dst))
+					accessor.BufferView = gltf.Index(modeler.WriteBufferView(doc, gltf.TargetArrayBuffer, joints))
+					accessor.ByteOffset = 0
+					accessor.ComponentType = gltf.ComponentUshort
+					accessor.Sparse = nil
 				}
 			}
 		}
-- 
2.43.0


From ae7704d3e63bef799eac1bca97ed68ed8c82fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:34 +0000
Subject: [PATCH 117/154] fix: vrm: inverse bind matrices of accessors with
 byte offset

---
 gltfutil/gltf_joint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index f799f51..901b01a 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -40,7 +40,7 @@ func ResetJointMatrix(doc *gltf.Document) {
 				}
 				for i := range skin.Joints {
 					// fix inverseBindMatrix
-					offset := bufferView.ByteOffset + uint32(i)*64
+					offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64
 					mat := readMatrix(data[offset : offset+64])
 
 					x := mat[0]*mat[12] + mat[1]*mat[13] + mat[2]*mat[14]
-- 
2.43.0


From bb2bbfb383f712822994372363a7456969c1bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:35 +0000
Subject: [PATCH 118/154] fix: vrm: keep the rotation of nodes with meshes

---
 gltfutil/gltf_joint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 901b01a..dab4a8c 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -61,7 +61,7 @@ func ResetJointMatrix(doc *gltf.Document) {
 	for i := 0; i < 10; i++ {
 		fixed := 0
 		for _, node := range doc.Nodes {
-			if node.Rotation == [4]float32{0, 0, 0, 1} || node.Skin != nil {
+			if node.RotationOrDefault() == gltf.DefaultRotation || node.Mesh != nil {
 				continue
 			}
 			fixed++
@@ -78,7 +78,7 @@ func ResetJointMatrix(doc *gltf.Document) {
 				child.Translation[1] = p2.Y
 				child.Translation[2] = p2.Z
 
-				rot := child.Rotation
+				rot := child.RotationOrDefault()
 				b := Quaternion{X: rot[0], Y: rot[1], Z: rot[2], W: rot[3]}
 				q := a.Mul(&b)
 				child.Rotation[0] = q.X
-- 
2.43.0


From e4a4ee3a81d5dc1d71c266b82057b90756d28b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:36 +0000
Subject: [PATCH 119/154] fix: vrm: reset rotations of deep joint chains

---
 gltfutil/gltf_joint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index dab4a8c..b9881dd 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -58,7 +58,7 @@ func ResetJointMatrix(doc *gltf.Document) {
 	}
 
 	// TODO: check node dependency
-	for i := 0; i < 10; i++ {
+	for i := 0; i <= len(doc.Nodes); i++ {
 		fixed := 0
 		for _, node := range doc.Nodes {
 			if node.RotationOrDefault() == gltf.DefaultRotation || node.Mesh != nil {
-- 
2.43.0


From eb34d38079ede6fd0ce3141ad1614585dc30d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:48 +0000
Subject: [PATCH 120/154] fix: vrm: nodes with a matrix

---
 gltfutil/gltf_joint.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index b9881dd..a5f629c 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -57,6 +57,16 @@ func ResetJointMatrix(doc *gltf.Document) {
 		}
 	}
 
+	for _, node := range doc.Nodes {
+		if node.MatrixOrDefault() != gltf.DefaultMatrix && node.Mesh == nil {
+			t, r, s := geom.NewMatrix4FromSlice(node.Matrix[:]).Decompose()
+			node.Matrix = gltf.DefaultMatrix
+			t.ToArray(node.Translation[:])
+			node.Rotation = [4]float32{r.X, r.Y, r.Z, r.W}
+			s.ToArray(node.Scale[:])
+		}
+	}
+
 	// TODO: check node dependency
 	for i := 0; i <= len(doc.Nodes); i++ {
 		fixed := 0
@@ -69,6 +79,11 @@ func ResetJointMatrix(doc *gltf.Document) {
 			node.Rotation = [4]float32{0, 0, 0, 1}
 			for _, c := range node.Children {
 				child := doc.Nodes[c]
+				if child.MatrixOrDefault() != gltf.DefaultMatrix {
+					m := geom.NewRotationMatrix4FromQuaternion(&a).Mul(geom.NewMatrix4FromSlice(child.Matrix[:]))
+					m.ToArray(child.Matrix[:])
+					continue
+				}
 
 				pos := child.Translation
 				p := Quaternion{X: pos[0], Y: pos[1], Z: pos[2], W: 1}
-- 
2.43.0


From 79b12470ad77384ad7fc86b09b940f59b7334a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 121/154] fix: vrmconfig: preset without own material settings

---
 converter/vrmconfig.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index adc14b3..2ce34fb 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -95,6 +95,9 @@ func LoadVRMConfig(name string) (*Config, error) {
 }
 
 func (c *Config) MergePreset(preset *Config) {
+	if c.MaterialSettings == nil {
+		c.MaterialSettings = map[string]*MaterialSetting{}
+	}
 	for name, m := range preset.MaterialSettings {
 		if _, exist := c.MaterialSettings[name]; !exist {
 			c.MaterialSettings[name] = m
-- 
2.43.0


From a6a20dd57499765734971c4426af604737b5ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:45 +0000
Subject: [PATCH 122/154] fix: vrmconfig: morph targets of loaded glTF files

---
 converter/vrmconfig.go | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 2ce34fb..2e002d4 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -123,6 +123,17 @@ func matchNodeName(pattern string, nodeMap map[string]int) []int {
 	return result
 }
 
+func targetNames(extras map[string]interface{}) []string {
+	names, _ := extras["targetNames"].([]string)
+	if list, ok := extras["targetNames"].([]interface{}); ok { // loaded from file
+		for _, n := range list {
+			name, _ := n.(string)
+			names = append(names, name)
+		}
+	}
+	return names
+}
+
 func findReursive(doc *vrm.Document, target uint32, m map[uint32]string) (string, bool) {
 	if name, ok := m[target]; ok {
 		return name, ok
@@ -253,10 +264,8 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 	targets := map[string][2]int{}
 	for mi, mesh := range doc.Meshes {
 		if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-			if names, ok := extras["targetNames"].([]string); ok {
-				for i, name := range names {
-					targets[name] = [2]int{mi, i}
-				}
+			for i, name := range targetNames(extras) {
+				targets[name] = [2]int{mi, i}
 			}
 		}
 	}
@@ -335,21 +344,19 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 	if conf.ExportAllMorph {
 		for mi, mesh := range doc.Meshes {
 			if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-				if names, ok := extras["targetNames"].([]string); ok {
-					for i, name := range names {
-						if _, used := blendShapeMap[[2]int{mi, i}]; used {
-							continue
-						}
-						m := &vrm.BlendShapeGroup{
-							Name: name,
-							Binds: []*vrm.BlendShapeBind{
-								{
-									Mesh: uint32(mi), Index: i, Weight: 100,
-								},
+				for i, name := range targetNames(extras) {
+					if _, used := blendShapeMap[[2]int{mi, i}]; used {
+						continue
+					}
+					m := &vrm.BlendShapeGroup{
+						Name: name,
+						Binds: []*vrm.BlendShapeBind{
+							{
+								Mesh: uint32(mi), Index: i, Weight: 100,
 							},
-						}
-						ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
+						},
 					}
+					ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
 				}
 			}
 		}
-- 
2.43.0


From 40177f0efae924532ab6c5273b9bb566f7155f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:46 +0000
Subject: [PATCH 123/154] fix: vrmconfig: morph mappings of nodes without mesh

---
 converter/vrmconfig.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 2e002d4..bc37ed0 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -290,7 +290,7 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 			continue
 		}
 
-		if id, ok := nodeMap[mapping.NodeName]; ok {
+		if id, ok := nodeMap[mapping.NodeName]; ok && doc.Nodes[id].Mesh != nil {
 			blendShapeMap[[2]int{int(*doc.Nodes[id].Mesh), mapping.TargetIndex}] = mapping.Name
 			m := &vrm.BlendShapeGroup{
 				Name:       mapping.Name,
@@ -302,7 +302,7 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 				},
 			}
 			ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
-		} else if mapping.NodeName == "" {
+		} else {
 			log.Println("Morph node not found:", mapping.NodeName, ":", mapping.TargetIndex)
 		}
 	}
-- 
2.43.0


From cae82c8229554d72e48210a0c230813d216527f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:47 +0000
Subject: [PATCH 124/154] fix: vrmconfig: alpha of materials without a color

---
 converter/vrmconfig.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index bc37ed0..26dca4c 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -214,7 +214,9 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 				mat.AlphaMode = gltf.AlphaOpaque
 			}
 			if setting.Alpha > 0 && mat.PBRMetallicRoughness != nil {
-				mat.PBRMetallicRoughness.BaseColorFactor[3] = setting.Alpha
+				color := mat.PBRMetallicRoughness.BaseColorFactorOrDefault()
+				color[3] = setting.Alpha
+				mat.PBRMetallicRoughness.BaseColorFactor = &color
 			}
 		}
 	}
-- 
2.43.0


From e4633e4ca8ceaec9514cc82498b0b00fcc5ecd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:48 +0000
Subject: [PATCH 125/154] fix: vrmconfig: order of nodes matched by wildcards

---
 converter/vrmconfig.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 26dca4c..73aac1d 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/binzume/modelconv/gltfutil"
@@ -117,6 +118,7 @@ func matchNodeName(pattern string, nodeMap map[string]int) []int {
 				result = append(result, id)
 			}
 		}
+		sort.Ints(result)
 	} else if id, ok := nodeMap[pattern]; ok {
 		result = append(result, id)
 	}
-- 
2.43.0


From 8a5ad1b54a99cbc9125301792656eae473868f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:15 +0000
Subject: [PATCH 126/154] fix: vrmconfig: collider groups of spring bones

---
 converter/vrmconfig.go | 43 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 73aac1d..039bd3d 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -106,7 +106,12 @@ func (c *Config) MergePreset(preset *Config) {
 	}
 	c.BoneMappings = append(c.BoneMappings, preset.BoneMappings...)
 	c.MorphMappings = append(c.MorphMappings, preset.MorphMappings...)
-	c.AnimationBoneGroups = append(c.AnimationBoneGroups, preset.AnimationBoneGroups...)
+	for _, group := range preset.AnimationBoneGroups {
+		for i := range group.ColliderGroups {
+			group.ColliderGroups[i] += len(c.ColliderGroups)
+		}
+		c.AnimationBoneGroups = append(c.AnimationBoneGroups, group)
+	}
 	c.ColliderGroups = append(c.ColliderGroups, preset.ColliderGroups...)
 }
 
@@ -223,6 +228,22 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		}
 	}
 
+	colliderGroups := map[int]int{} // index in conf -> index in ext
+	for i, colliderGroup := range conf.ColliderGroups {
+		var b = colliderGroup.SecondaryAnimationColliderGroup
+		if id, ok := nodeMap[colliderGroup.NodeName]; ok {
+			b.Node = uint32(id)
+		} else {
+			log.Println("Node not found:", colliderGroup.NodeName)
+			continue
+		}
+		if ext.SecondaryAnimation == nil {
+			ext.SecondaryAnimation = &vrm.SecondaryAnimation{}
+		}
+		colliderGroups[i] = len(ext.SecondaryAnimation.ColliderGroups)
+		ext.SecondaryAnimation.ColliderGroups = append(ext.SecondaryAnimation.ColliderGroups, &b)
+	}
+
 	for _, boneGroup := range conf.AnimationBoneGroups {
 		var b = boneGroup.SecondaryAnimationBoneGroup
 		for _, nodeName := range boneGroup.NodeNames {
@@ -243,6 +264,12 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 				log.Println("Bone node not found:", nodeName)
 			}
 		}
+		b.ColliderGroups = nil
+		for _, c := range boneGroup.ColliderGroups {
+			if i, ok := colliderGroups[c]; ok {
+				b.ColliderGroups = append(b.ColliderGroups, i)
+			}
+		}
 		if len(b.Bones) > 0 {
 			if ext.SecondaryAnimation == nil {
 				ext.SecondaryAnimation = &vrm.SecondaryAnimation{}
@@ -251,20 +278,6 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		}
 	}
 
-	for _, colliderGroup := range conf.ColliderGroups {
-		var b = colliderGroup.SecondaryAnimationColliderGroup
-		if id, ok := nodeMap[colliderGroup.NodeName]; ok {
-			b.Node = uint32(id)
-		} else {
-			log.Println("Node not found:", colliderGroup.NodeName)
-			continue
-		}
-		if ext.SecondaryAnimation == nil {
-			ext.SecondaryAnimation = &vrm.SecondaryAnimation{}
-		}
-		ext.SecondaryAnimation.ColliderGroups = append(ext.SecondaryAnimation.ColliderGroups, &b)
-	}
-
 	targets := map[string][2]int{}
 	for mi, mesh := range doc.Meshes {
 		if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-- 
2.43.0


From f4b5ed75bbc4ed88fd913be83fb9a6b1465faa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:16 +0000
Subject: [PATCH 127/154] fix: keep the VRM extension when no vrmconfig is
 given

---
 cmd/modelconv/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 4a26545..7407ed5 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -17,6 +17,7 @@ import (
 	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/gltfutil"
 	"github.com/binzume/modelconv/mqo"
+	"github.com/binzume/modelconv/vrm"
 	"github.com/qmuntal/gltf"
 )
 
@@ -89,6 +90,12 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		}
 		return gltfutil.Save(doc, output)
 	} else if ext == ".vrm" {
+		if _, ok := doc.Extensions[vrm.ExtensionName]; ok && vrmConf == "" {
+			if _, err := converter.ToVRM(doc, output, srcDir, ""); err != nil {
+				return err
+			}
+			return gltf.SaveBinary(doc, output)
+		}
 		conf, err := converter.LoadVRMConfig(vrmConf)
 		if err != nil {
 			log.Println("vrmconfig error:", err)
-- 
2.43.0


From ad3fdd564eae62eb18ab6b0f8879132385e2a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:31 +0000
Subject: [PATCH 128/154] fix: vrmconfig: no alpha cutoff for blended and
 opaque materials

---
 converter/vrmconfig.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 039bd3d..2ec8183 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -220,6 +220,9 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 			} else if setting.AlphaMode == "opaque" {
 				mat.AlphaMode = gltf.AlphaOpaque
 			}
+			if mat.AlphaMode != gltf.AlphaMask {
+				mat.AlphaCutoff = nil
+			}
 			if setting.Alpha > 0 && mat.PBRMetallicRoughness != nil {
 				color := mat.PBRMetallicRoughness.BaseColorFactorOrDefault()
 				color[3] = setting.Alpha
-- 
2.43.0


From a576f1e3ab9b0e6ab67f66ed26e5ecfdd82cdefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:27 +0000
Subject: [PATCH 129/154] fix: keep the alpha mode of unlit materials

---
 cmd/modelconv/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 7407ed5..1ca7051 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -380,6 +380,10 @@ func main() {
 		patterns := strings.Split(*unlit, ",")
 		for _, mat := range doc.Materials {
 			if match(patterns, mat.Name) {
+				if mat.GetShaderName() == mqo.ShaderNameGlTF {
+					mat.Ex2.ShaderParams["Extensions.Unlit"] = true
+					continue
+				}
 				mat.Shader = 1 // Constant shader
 				mat.Ex2 = nil
 			}
-- 
2.43.0


From 79f5aefd92b302ea61d46b155040814974431952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:29 +0000
Subject: [PATCH 130/154] fix: keep constant materials unlit when the alpha
 mode is set

---
 mqo/mqo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 5f9d69c..70ebcbf 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -159,7 +159,11 @@ const (
 
 func (m *Material) SetGltfAlphaMode(mode int) {
 	if m.Ex2 == nil || m.Ex2.ShaderName != ShaderNameGlTF {
+		unlit := m.GetShaderName() == "Constant"
 		m.Ex2 = NewMaterialEx2(ShaderNameGlTF)
+		if unlit {
+			m.Ex2.ShaderParams["Extensions.Unlit"] = true
+		}
 	}
 	m.Ex2.ShaderParams["AlphaMode"] = mode
 }
-- 
2.43.0


From c8f2fc52dba532c722f280f9d19c5150dc493eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:29 +0000
Subject: [PATCH 131/154] fix: chparent: report unknown parent bones

---
 cmd/modelconv/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 1ca7051..e0d302e 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -291,8 +291,12 @@ func main() {
 				log.Fatal("invalid bone setting (BONE_NAME:PARENT_NAME)", n)
 				continue
 			}
+			parent, ok := boneByName[boneAndParent[1]]
+			if !ok {
+				log.Fatal("parent bone not found: ", n)
+			}
 			if b, ok := boneByName[boneAndParent[0]]; ok {
-				b.Parent = boneByName[boneAndParent[1]].ID
+				b.Parent = parent.ID
 			}
 		}
 	}
-- 
2.43.0


From 870757e2ae477e0ba2d62e82a86b4158d95f7afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:30 +0000
Subject: [PATCH 132/154] fix: crash when a VRM file cannot be made

---
 cmd/modelconv/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index e0d302e..d5a466e 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -109,6 +109,9 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 			conf.ExportAllMorph = true
 		}
 		vrmdoc, err := converter.ApplyVRMConfig(doc, output, srcDir, conf)
+		if vrmdoc == nil {
+			return err
+		}
 		if err := vrmdoc.ValidateBones(); err != nil {
 			log.Print(err)
 		}
-- 
2.43.0


From 4b03ba1974ceb8fc3abcdd634afd58fc37d27b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:24 +0000
Subject: [PATCH 133/154] fix: report write errors of binary glTF files

---
 cmd/modelconv/main.go  |  6 +++---
 gltfutil/gltf_utils.go | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index d5a466e..66d5157 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -82,7 +82,7 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		if err != nil {
 			return err
 		}
-		return gltf.SaveBinary(doc, output)
+		return gltfutil.SaveBinary(doc, output)
 	} else if ext == ".gltf" {
 		for i, b := range doc.Buffers {
 			name := fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)
@@ -94,7 +94,7 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 			if _, err := converter.ToVRM(doc, output, srcDir, ""); err != nil {
 				return err
 			}
-			return gltf.SaveBinary(doc, output)
+			return gltfutil.SaveBinary(doc, output)
 		}
 		conf, err := converter.LoadVRMConfig(vrmConf)
 		if err != nil {
@@ -119,7 +119,7 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 			gltf.SaveBinary(doc, output) // for debug
 			return err
 		}
-		return gltf.SaveBinary(doc, output)
+		return gltfutil.SaveBinary(doc, output)
 	}
 	return fmt.Errorf("Unsuppored output type: %v", ext)
 }
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index a9948cb..278194d 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -1,6 +1,7 @@
 package gltfutil
 
 import (
+	"bufio"
 	"io"
 	"io/fs"
 	"io/ioutil"
@@ -67,6 +68,23 @@ func Save(doc *gltf.Document, path string) error {
 	return f.Close()
 }
 
+// SaveBinary saves the document as a .glb file.
+func SaveBinary(doc *gltf.Document, path string) error {
+	f, err := os.Create(path)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	w := bufio.NewWriter(f) // the encoder ignores some write errors
+	if err := gltf.NewEncoderFS(w, uriFS(filepath.Dir(path))).Encode(doc); err != nil {
+		return err
+	}
+	if err := w.Flush(); err != nil {
+		return err
+	}
+	return f.Close()
+}
+
 func RemoveExtension(doc *gltf.Document, extension string) {
 	for _, n := range doc.Accessors {
 		delete(n.Extensions, extension)
-- 
2.43.0


From bc8e9778edc582b17ea2982d97f774a68da29041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 134/154] fix: -format mqoz writes an MQOZ file whatever the
 output is called

---
 cmd/modelconv/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 66d5157..0092eb8 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -154,6 +154,9 @@ func saveDocument(doc *mqo.Document, output, ext, srcDir string, inputs []string
 		}
 		return saveGltfDocument(gltfdoc, output, ext, srcDir, *vrmconf)
 	} else if isMQO(ext) {
+		if ext == ".mqoz" {
+			return mqo.SaveMQOZ(doc, output)
+		}
 		return mqo.Save(doc, output)
 	} else if ext == ".pmx" {
 		return saveAsPmx(doc, output)
-- 
2.43.0


From dbfe1e07b10b4c120b2252d72934165c4e45c01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:42 +0000
Subject: [PATCH 135/154] fix: report all write errors of VRM files

---
 vrm/vrm_writer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrm/vrm_writer.go b/vrm/vrm_writer.go
index 20f050e..83e1db5 100644
--- a/vrm/vrm_writer.go
+++ b/vrm/vrm_writer.go
@@ -1,6 +1,7 @@
 package vrm
 
 import (
+	"bufio"
 	"io"
 	"io/fs"
 	"os"
@@ -20,10 +21,11 @@ func (f *createfs) Create(name string) (io.WriteCloser, error) {
 
 // Write vrm file
 func Write(doc *Document, w io.Writer, path string) error {
-	e := gltf.NewEncoderFS(w, &createfs{os.DirFS(filepath.Dir(path)), path})
+	bw := bufio.NewWriter(w) // the encoder ignores some write errors
+	e := gltf.NewEncoderFS(bw, &createfs{os.DirFS(filepath.Dir(path)), path})
 	e.AsBinary = true
 	if err := e.Encode((*gltf.Document)(doc)); err != nil {
 		return err
 	}
-	return nil
+	return bw.Flush()
 }
-- 
2.43.0


From ee1b7c938771e4a10f58893b38601351d2d5b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 136/154] fix: fbx: do not allocate memory for lengths the file
 does not have

---
 fbx/binary_parser.go | 60 +++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index c01432f..19aa0aa 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -2,12 +2,14 @@ package fbx
 
 import (
 	"bufio"
+	"bytes"
 	"compress/zlib"
 	"encoding/binary"
 	"fmt"
 	"io"
 	"io/ioutil"
 	"log"
+	"strings"
 )
 
 type positionReader struct {
@@ -86,9 +88,20 @@ func (p *binaryParser) readFloat64() float64 {
 }
 
 func (p *binaryParser) readString(len uint) string {
-	bytes := make([]byte, len)
-	p.read(bytes)
-	return string(bytes)
+	return string(p.readBytes(p.r, int64(len)))
+}
+
+// readBytes allocates memory as data is read, because n may be broken.
+func (p *binaryParser) readBytes(r io.Reader, n int64) []byte {
+	if p.err != nil {
+		return nil
+	}
+	data, err := ioutil.ReadAll(io.LimitReader(r, n))
+	if err == nil && int64(len(data)) < n {
+		err = io.ErrUnexpectedEOF
+	}
+	p.err = err
+	return data
 }
 
 func (p *binaryParser) readName() string {
@@ -99,6 +112,24 @@ func (p *binaryParser) readPropArray(typ uint8) *Attribute {
 	count := uint(p.readUint32())
 	encoding := p.readUint32()
 	sz := p.readUint32()
+	size := int64(count) * map[uint8]int64{'b': 1, 'y': 2, 'i': 4, 'l': 8, 'f': 4, 'd': 8}[typ]
+	var data []byte
+	if encoding == 0 {
+		data = p.readBytes(p.r, size)
+	} else {
+		next := p.r.position + int64(sz)
+		r, err := zlib.NewReader(io.LimitReader(p.r, int64(sz)))
+		if err != nil {
+			p.err = err
+			return nil
+		}
+		defer r.Close()
+		data = p.readBytes(r, size)
+		p.r.SkipTo(next)
+	}
+	if p.err != nil {
+		return nil
+	}
 	var buf interface{}
 	switch typ {
 	case 'b':
@@ -116,22 +147,7 @@ func (p *binaryParser) readPropArray(typ uint8) *Attribute {
 	default:
 		return nil
 	}
-	if encoding == 0 {
-		p.read(buf)
-	} else {
-		next := p.r.position + int64(sz)
-		r, err := zlib.NewReader(io.LimitReader(p.r, int64(sz)))
-		if err != nil {
-			p.err = err
-			return &Attribute{buf}
-		}
-		defer r.Close()
-		err = binary.Read(r, binary.LittleEndian, buf)
-		if p.err == nil {
-			p.err = err
-		}
-		p.r.SkipTo(next)
-	}
+	p.err = binary.Read(bytes.NewReader(data), binary.LittleEndian, buf)
 	return &Attribute{buf}
 }
 
@@ -166,9 +182,7 @@ func (p *binaryParser) readProp() *Attribute {
 	case 'S':
 		return &Attribute{p.readString(uint(p.readUint32()))}
 	case 'R':
-		buf := make([]byte, p.readUint32())
-		p.read(buf)
-		return &Attribute{buf}
+		return &Attribute{p.readBytes(p.r, int64(p.readUint32()))}
 	case 'b', 'y', 'i', 'l', 'f', 'd':
 		return p.readPropArray(typ)
 	}
@@ -233,7 +247,7 @@ func (p *binaryParser) Parse() (*Node, error) {
 	magic := p.readString(21)
 	if magic != "Kaydara FBX Binary  \x00" {
 		// try parse texy. TODO
-		if magic[0] == ';' {
+		if strings.HasPrefix(magic, ";") {
 			p2 := &textParser{r: bufio.NewReader(p.r.r), buf: []byte(magic)}
 			return p2.Parse()
 		}
-- 
2.43.0


From 0f84ab743eff4a5ad93c0eb6e3eba9ddbb47836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 137/154] fix: fbx: ignore connections that make models contain
 themselves

---
 fbx/fbx_document.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index 9d1c2a7..33c0711 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -124,7 +124,7 @@ func BuildDocument(root *Node) (*Document, error) {
 				from = objectByName[node.Attr(1).ToString()]
 				to = objectByName[node.Attr(2).ToString()]
 			}
-			if to != nil && from != nil {
+			if to != nil && from != nil && !isModelLoop(to, from) {
 				if ctype == "OP" {
 					to.AddPropRef(from, node.Attr(3).ToString())
 				} else {
@@ -144,6 +144,28 @@ func BuildDocument(root *Node) (*Document, error) {
 	return doc, nil
 }
 
+// isModelLoop returns true if parent is child or a descendant of it.
+func isModelLoop(parent, child Object) bool {
+	target, ok1 := parent.(*Model)
+	model, ok2 := child.(*Model)
+	if !ok1 || !ok2 {
+		return false
+	}
+	visited := map[*Model]bool{model: true}
+	for models := []*Model{model}; len(models) > 0; models = models[1:] {
+		if models[0] == target {
+			return true
+		}
+		for _, m := range models[0].GetChildModels() {
+			if !visited[m] {
+				visited[m] = true
+				models = append(models, m)
+			}
+		}
+	}
+	return false
+}
+
 func (doc *Document) AddObject(obj Object) int64 {
 	existing := doc.ObjectByID[obj.ID()]
 	if existing == obj {
-- 
2.43.0


From 3c177942e509a1983d87c439427ab21973427b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:06 +0000
Subject: [PATCH 138/154] fix: fbx: ignore invalid axis settings

---
 fbx/fbx_document.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index 33c0711..0b1d6f0 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -208,8 +208,14 @@ func (doc *Document) CoordMatrix() *geom.Matrix4 {
 		0, 0, 0, 0,
 		0, 0, 0, 1,
 	}
-	mat[gs.GetProperty("CoordAxis").ToInt(0)*4] = gs.GetProperty("CoordAxisSign").ToFloat32(1)
-	mat[gs.GetProperty("UpAxis").ToInt(1)*4+1] = gs.GetProperty("UpAxisSign").ToFloat32(1)
-	mat[gs.GetProperty("FrontAxis").ToInt(2)*4+2] = gs.GetProperty("FrontAxisSign").ToFloat32(1)
+	axis := func(name string, def int) int {
+		if a := gs.GetProperty(name).ToInt(def); a >= 0 && a < 3 {
+			return a
+		}
+		return def
+	}
+	mat[axis("CoordAxis", 0)*4] = gs.GetProperty("CoordAxisSign").ToFloat32(1)
+	mat[axis("UpAxis", 1)*4+1] = gs.GetProperty("UpAxisSign").ToFloat32(1)
+	mat[axis("FrontAxis", 2)*4+2] = gs.GetProperty("FrontAxisSign").ToFloat32(1)
 	return &mat
 }
-- 
2.43.0


From 72fcd27399f8bf6d3728df3f49190c7b9064a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 139/154] fix: fbx: skip polygons, clusters and material
 indexes with invalid references

---
 converter/fbx2mqo.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 3986f97..de8c7e3 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -136,7 +136,7 @@ func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.
 					materialIDs = make([]int, len(c.MaterialOverride))
 					n := 0
 					for _, m := range matArray {
-						if matMap[m] || m >= int32(len(materialIDs)) {
+						if matMap[m] || m < 0 || m >= int32(len(materialIDs)) {
 							continue
 						}
 						matMap[m] = true
@@ -215,6 +215,7 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 	vcount := 0
 	for i, f := range g.Polygons {
 		face := &mqo.Face{}
+		valid := true
 		var matIdx int
 		if matByPolygon {
 			matIdx = int(matArray[i])
@@ -226,6 +227,7 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 		}
 		for n, v := range f {
 			face.Verts = append(face.Verts, v)
+			valid = valid && v >= 0 && v < len(obj.Vertexes)
 			if normIndex != nil {
 				face.Normals = append(face.Normals, normalTransform.ApplyTo(normArray[normIndex[vcount+n]]).Normalize())
 			}
@@ -235,6 +237,9 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 			}
 		}
 		vcount += len(f)
+		if !valid {
+			continue
+		}
 		if transform.Det() > 0 {
 			face.Flip()
 		}
@@ -303,7 +308,7 @@ func layerElementIndexes(e *fbx.LayerElement, g *fbx.Geometry, count int) []int
 
 func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 	model := sub.GetTarget()
-	if model == nil {
+	if model == nil || model == c.src.Scene {
 		log.Println("ERR: Deformer has no model: ", sub.ID(), sub.Kind())
 		return
 	}
-- 
2.43.0


From d28f5b844ae154cd4d153a52cc71d5239872b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:08 +0000
Subject: [PATCH 140/154] fix: mqo: skip faces with invalid vertex indexes

---
 mqo/mqo_parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 8d88c92..02e9ab1 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -341,6 +341,20 @@ func (p *Parser) readObject() *Object {
 			}, "vertexattr")
 		},
 	}, fmt.Sprintf("Object %v\n", o.Name))
+
+	faces := o.Faces
+	o.Faces = nil
+	for _, f := range faces {
+		valid := true
+		for _, v := range f.Verts {
+			valid = valid && v >= 0 && v < len(o.Vertexes)
+		}
+		if valid {
+			o.Faces = append(o.Faces, f)
+		} else {
+			log.Printf("  Invalid face  %s %v\n", o.Name, f.Verts)
+		}
+	}
 	return o
 }
 
-- 
2.43.0


From 242c109409fbd0a0f140180b92dd8ce997215c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 141/154] fix: pmx, pmd: reject invalid vertex indexes and face
 counts

---
 mmd/pmd_parser.go |  3 +++
 mmd/pmx_parser.go | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index 3fae856..b1498c3 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -183,5 +183,8 @@ func (p *PMDParser) Parse() (*Document, error) {
 	if p.err != nil {
 		return nil, p.err
 	}
+	if err := model.validate(); err != nil {
+		return nil, err
+	}
 	return &model, nil
 }
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index 7d9d6a2..567c71f 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -395,9 +395,43 @@ func (p *PMXParser) Parse() (*Document, error) {
 	if p.err != nil {
 		return nil, p.err
 	}
+	if err := pmx.validate(); err != nil {
+		return nil, err
+	}
 	return &pmx, nil
 }
 
+// validate checks the references which are needed to build the mesh.
+func (doc *Document) validate() error {
+	for _, f := range doc.Faces {
+		for _, v := range f.Verts {
+			if v < 0 || v >= len(doc.Vertexes) {
+				return fmt.Errorf("Invalid vertex index: %d", v)
+			}
+		}
+	}
+	faces := 0
+	for _, m := range doc.Materials {
+		faces += m.Count / 3
+		if m.Count < 0 || faces > len(doc.Faces) {
+			return fmt.Errorf("Invalid face count: %d", m.Count)
+		}
+	}
+	for _, m := range doc.Morphs {
+		for _, v := range m.Vertex {
+			if v.Target < 0 || v.Target >= len(doc.Vertexes) {
+				return fmt.Errorf("Invalid morph target: %d", v.Target)
+			}
+		}
+		for _, v := range m.UV {
+			if v.Target < 0 || v.Target >= len(doc.Vertexes) {
+				return fmt.Errorf("Invalid morph target: %d", v.Target)
+			}
+		}
+	}
+	return nil
+}
+
 // Parse pmx/pmd file.
 func Parse(r io.Reader) (*Document, error) {
 	// check format
-- 
2.43.0


From 908ac818de0d1bd0f0e8a2c7d749f45a5c2fcc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:57 +0000
Subject: [PATCH 142/154] fix: reject glTF files with invalid references

---
 gltfutil/gltf_utils.go |   3 +
 gltfutil/validate.go   | 210 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 213 insertions(+)
 create mode 100644 gltfutil/validate.go

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 278194d..b098899 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -50,6 +50,9 @@ func Load(path string) (*gltf.Document, error) {
 	if err = gltf.NewDecoderFS(f, uriFS(filepath.Dir(path))).Decode(doc); err != nil {
 		return nil, err
 	}
+	if err := validate(doc); err != nil {
+		return nil, err
+	}
 	return doc, nil
 }
 
diff --git a/gltfutil/validate.go b/gltfutil/validate.go
new file mode 100644
index 0000000..deeb19a
--- /dev/null
+++ b/gltfutil/validate.go
@@ -0,0 +1,210 @@
+package gltfutil
+
+import (
+	"errors"
+	"fmt"
+
+	"github.com/qmuntal/gltf"
+)
+
+type indexValidator struct {
+	err error
+}
+
+func (v *indexValidator) check(name string, index uint32, n int) {
+	if v.err == nil && uint64(index) >= uint64(n) {
+		v.err = fmt.Errorf("glTF: invalid %s index: %d", name, index)
+	}
+}
+
+func (v *indexValidator) checkOpt(name string, index *uint32, n int) {
+	if index != nil {
+		v.check(name, *index, n)
+	}
+}
+
+func (v *indexValidator) checkNil(name string, isNil bool) bool {
+	if v.err == nil && isNil {
+		v.err = fmt.Errorf("glTF: invalid %s", name)
+	}
+	return !isNil
+}
+
+func (v *indexValidator) checkData(doc *gltf.Document, view uint32, offset, elemSize, count uint32) {
+	v.check("bufferView", view, len(doc.BufferViews))
+	if v.err != nil || count == 0 {
+		return
+	}
+	bv := doc.BufferViews[view]
+	stride := bv.ByteStride
+	if stride == 0 {
+		stride = elemSize
+	}
+	if uint64(offset)+uint64(stride)*uint64(count-1)+uint64(elemSize) > uint64(bv.ByteLength) {
+		v.err = errors.New("glTF: accessor does not fit in the bufferView")
+	}
+}
+
+// validate checks all references between the objects of the document.
+func validate(doc *gltf.Document) error {
+	v := &indexValidator{}
+	for _, b := range doc.Buffers {
+		v.checkNil("buffer", b == nil)
+	}
+	for _, bv := range doc.BufferViews {
+		if v.checkNil("bufferView", bv == nil) {
+			v.check("buffer", bv.Buffer, len(doc.Buffers))
+			if v.err == nil {
+				if data := doc.Buffers[bv.Buffer].Data; len(data) > 0 && uint64(bv.ByteOffset)+uint64(bv.ByteLength) > uint64(len(data)) {
+					return errors.New("glTF: bufferView does not fit in the buffer")
+				}
+			}
+		}
+	}
+	for _, a := range doc.Accessors {
+		if v.checkNil("accessor", a == nil) {
+			size := gltf.SizeOfElement(a.ComponentType, a.Type)
+			if a.BufferView != nil {
+				v.checkData(doc, *a.BufferView, a.ByteOffset, size, a.Count)
+			}
+			if a.Sparse != nil {
+				v.checkData(doc, a.Sparse.Values.BufferView, a.Sparse.Values.ByteOffset, size, a.Sparse.Count)
+				v.checkData(doc, a.Sparse.Indices.BufferView, a.Sparse.Indices.ByteOffset, gltf.SizeOfElement(a.Sparse.Indices.ComponentType, gltf.AccessorScalar), a.Sparse.Count)
+			}
+		}
+	}
+	for _, s := range doc.Samplers {
+		v.checkNil("sampler", s == nil)
+	}
+	for _, c := range doc.Cameras {
+		v.checkNil("camera", c == nil)
+	}
+	for _, m := range doc.Images {
+		if v.checkNil("image", m == nil) {
+			v.checkOpt("bufferView", m.BufferView, len(doc.BufferViews))
+		}
+	}
+	for _, t := range doc.Textures {
+		if v.checkNil("texture", t == nil) {
+			v.checkOpt("sampler", t.Sampler, len(doc.Samplers))
+			v.checkOpt("image", t.Source, len(doc.Images))
+		}
+	}
+	for _, m := range doc.Materials {
+		if !v.checkNil("material", m == nil) {
+			continue
+		}
+		infos := []*gltf.TextureInfo{m.EmissiveTexture}
+		if pbr := m.PBRMetallicRoughness; pbr != nil {
+			infos = append(infos, pbr.BaseColorTexture, pbr.MetallicRoughnessTexture)
+		}
+		for _, t := range infos {
+			if t != nil {
+				v.check("texture", t.Index, len(doc.Textures))
+			}
+		}
+		if m.NormalTexture != nil {
+			v.checkOpt("texture", m.NormalTexture.Index, len(doc.Textures))
+		}
+		if m.OcclusionTexture != nil {
+			v.checkOpt("texture", m.OcclusionTexture.Index, len(doc.Textures))
+		}
+	}
+	for _, m := range doc.Meshes {
+		if !v.checkNil("mesh", m == nil) {
+			continue
+		}
+		for _, p := range m.Primitives {
+			if !v.checkNil("primitive", p == nil) {
+				continue
+			}
+			v.checkOpt("accessor", p.Indices, len(doc.Accessors))
+			v.checkOpt("material", p.Material, len(doc.Materials))
+			for _, attrs := range append([]gltf.Attribute{p.Attributes}, p.Targets...) {
+				for _, a := range attrs {
+					v.check("accessor", a, len(doc.Accessors))
+				}
+			}
+		}
+	}
+	for _, s := range doc.Skins {
+		if !v.checkNil("skin", s == nil) {
+			continue
+		}
+		v.checkOpt("node", s.Skeleton, len(doc.Nodes))
+		for _, n := range s.Joints {
+			v.check("node", n, len(doc.Nodes))
+		}
+		if s.InverseBindMatrices != nil {
+			v.check("accessor", *s.InverseBindMatrices, len(doc.Accessors))
+			if v.err == nil {
+				a := doc.Accessors[*s.InverseBindMatrices]
+				if a.ComponentType != gltf.ComponentFloat || a.Type != gltf.AccessorMat4 || uint64(a.Count) < uint64(len(s.Joints)) {
+					return errors.New("glTF: invalid inverseBindMatrices")
+				}
+			}
+		}
+	}
+	for _, s := range doc.Scenes {
+		if v.checkNil("scene", s == nil) {
+			for _, n := range s.Nodes {
+				v.check("node", n, len(doc.Nodes))
+			}
+		}
+	}
+	v.checkOpt("scene", doc.Scene, len(doc.Scenes))
+	for _, anim := range doc.Animations {
+		if !v.checkNil("animation", anim == nil) {
+			continue
+		}
+		for _, s := range anim.Samplers {
+			if v.checkNil("animation sampler", s == nil) {
+				v.checkOpt("accessor", s.Input, len(doc.Accessors))
+				v.checkOpt("accessor", s.Output, len(doc.Accessors))
+			}
+		}
+		for _, c := range anim.Channels {
+			if v.checkNil("animation channel", c == nil) {
+				v.checkOpt("animation sampler", c.Sampler, len(anim.Samplers))
+				v.checkOpt("node", c.Target.Node, len(doc.Nodes))
+			}
+		}
+	}
+	for _, n := range doc.Nodes {
+		if v.checkNil("node", n == nil) {
+			v.checkOpt("mesh", n.Mesh, len(doc.Meshes))
+			v.checkOpt("skin", n.Skin, len(doc.Skins))
+			v.checkOpt("camera", n.Camera, len(doc.Cameras))
+			for _, c := range n.Children {
+				v.check("node", c, len(doc.Nodes))
+			}
+		}
+	}
+	if v.err != nil {
+		return v.err
+	}
+	return validateTree(doc)
+}
+
+// validateTree checks that each node has at most one parent and is not its own ancestor.
+func validateTree(doc *gltf.Document) error {
+	parents := make([]int, len(doc.Nodes))
+	for i, n := range doc.Nodes {
+		for _, c := range n.Children {
+			if parents[c] != 0 {
+				return fmt.Errorf("glTF: node %d has multiple parents", c)
+			}
+			parents[c] = i + 1
+		}
+	}
+	for i := range doc.Nodes {
+		depth := 0
+		for n := parents[i]; n > 0; n = parents[n-1] {
+			depth++
+			if depth > len(doc.Nodes) {
+				return fmt.Errorf("glTF: node %d contains itself", i)
+			}
+		}
+	}
+	return nil
+}
-- 
2.43.0


From f7f551fc7d9382ff3401b7de7022ae19de0fd803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:17 +0000
Subject: [PATCH 143/154] fix: glTF to MQO: accessors without data and invalid
 vertex indexes

---
 converter/gltf2mqo.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index cef2a5c..991b57e 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -90,6 +90,9 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 		base := len(obj.Vertexes)
 		if a, ok := p.Attributes["POSITION"]; ok {
 			acr := src.Accessors[a]
+			if acr.BufferView == nil && acr.Sparse == nil {
+				continue // all vertexes are at the same place
+			}
 			pos, err := modeler.ReadPosition(src, acr, [][3]float32{})
 			if err != nil {
 				log.Fatalf("err %v", err)
@@ -100,7 +103,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			}
 		}
 		var texCoord [][2]float32
-		if a, ok := p.Attributes["TEXCOORD_0"]; ok {
+		if a, ok := p.Attributes["TEXCOORD_0"]; ok && (src.Accessors[a].BufferView != nil || src.Accessors[a].Sparse != nil) {
 			acr := src.Accessors[a]
 			t, err := modeler.ReadTextureCoord(src, acr, [][2]float32{})
 			texCoord = t
@@ -110,7 +113,9 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			}
 		}
 		var indices []uint32
-		if p.Indices != nil {
+		if p.Indices != nil && src.Accessors[*p.Indices].BufferView == nil && src.Accessors[*p.Indices].Sparse == nil {
+			continue // all indices are zero
+		} else if p.Indices != nil {
 			acr := src.Accessors[*p.Indices]
 			var err error
 			indices, err = modeler.ReadIndices(src, acr, []uint32{})
@@ -128,9 +133,13 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 		if p.Material != nil {
 			mat = int(*p.Material)
 		}
+		vertexCount := uint32(len(obj.Vertexes) - base)
 		for i := 0; i < len(indices)/3; i++ {
+			if indices[i*3] >= vertexCount || indices[i*3+1] >= vertexCount || indices[i*3+2] >= vertexCount {
+				continue
+			}
 			f := &mqo.Face{Material: mat, Verts: []int{base + int(indices[i*3]), base + int(indices[i*3+2]), base + int(indices[i*3+1])}}
-			if len(texCoord) > int(indices[i*3]) {
+			if len(texCoord) >= int(vertexCount) {
 				f.UVs = []mqo.Vector2{
 					{X: texCoord[indices[i*3]][0], Y: texCoord[indices[i*3]][1]},
 					{X: texCoord[indices[i*3+2]][0], Y: texCoord[indices[i*3+2]][1]},
-- 
2.43.0


From 37ff25d2d44abe694aff492b3c51b84b78816115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:20 +0000
Subject: [PATCH 144/154] fix: vrmconfig: ignore null entries

---
 converter/vrmconfig.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 2ec8183..422193e 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -107,6 +107,9 @@ func (c *Config) MergePreset(preset *Config) {
 	c.BoneMappings = append(c.BoneMappings, preset.BoneMappings...)
 	c.MorphMappings = append(c.MorphMappings, preset.MorphMappings...)
 	for _, group := range preset.AnimationBoneGroups {
+		if group == nil {
+			continue
+		}
 		for i := range group.ColliderGroups {
 			group.ColliderGroups[i] += len(c.ColliderGroups)
 		}
@@ -164,6 +167,9 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 	ext := doc.VRM()
 	springBones := map[uint32]string{}
 	for _, mapping := range conf.BoneMappings {
+		if mapping == nil {
+			continue
+		}
 		if _, ok := foundBones[mapping.Bone.Bone]; ok {
 			continue
 		}
@@ -233,6 +239,9 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 
 	colliderGroups := map[int]int{} // index in conf -> index in ext
 	for i, colliderGroup := range conf.ColliderGroups {
+		if colliderGroup == nil {
+			continue
+		}
 		var b = colliderGroup.SecondaryAnimationColliderGroup
 		if id, ok := nodeMap[colliderGroup.NodeName]; ok {
 			b.Node = uint32(id)
@@ -248,6 +257,9 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 	}
 
 	for _, boneGroup := range conf.AnimationBoneGroups {
+		if boneGroup == nil {
+			continue
+		}
 		var b = boneGroup.SecondaryAnimationBoneGroup
 		for _, nodeName := range boneGroup.NodeNames {
 			matched := matchNodeName(nodeName, nodeMap)
@@ -290,6 +302,9 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 		}
 	}
 	for _, mapping := range conf.MorphMappings {
+		if mapping == nil {
+			continue
+		}
 		if mapping.TargetName != "" {
 			m := &vrm.BlendShapeGroup{
 				Name:           mapping.Name,
-- 
2.43.0


From 4de97520932a59cfbe2a71faa315843fd9a72b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:21 +0000
Subject: [PATCH 145/154] fix: report glTF files which the decoder can not
 handle

---
 gltfutil/gltf_utils.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index b098899..7a66a49 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -2,6 +2,7 @@ package gltfutil
 
 import (
 	"bufio"
+	"fmt"
 	"io"
 	"io/fs"
 	"io/ioutil"
@@ -47,7 +48,7 @@ func Load(path string) (*gltf.Document, error) {
 	}
 	defer f.Close()
 	doc := new(gltf.Document)
-	if err = gltf.NewDecoderFS(f, uriFS(filepath.Dir(path))).Decode(doc); err != nil {
+	if err = decode(f, path, doc); err != nil {
 		return nil, err
 	}
 	if err := validate(doc); err != nil {
@@ -56,6 +57,16 @@ func Load(path string) (*gltf.Document, error) {
 	return doc, nil
 }
 
+// decode reads a document. The decoder panics if the list of buffers has null entries.
+func decode(r io.Reader, path string, doc *gltf.Document) (err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("glTF: invalid file: %v", e)
+		}
+	}()
+	return gltf.NewDecoderFS(r, uriFS(filepath.Dir(path))).Decode(doc)
+}
+
 // Save saves the document as a .gltf file. Buffers are saved to the files of their URIs.
 func Save(doc *gltf.Document, path string) error {
 	f, err := os.Create(path)
-- 
2.43.0


From 3a361071918eccfee7d4511734e1da58371fa679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:38 +0000
Subject: [PATCH 146/154] fix: MMD to MQO: ignore invalid texture indexes

---
 converter/mmd2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 189f583..d0cbf44 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -38,7 +38,7 @@ func (c *mmdToMQO) convertMaterial(mat *mmd.Material, model *mmd.Document) *mqo.
 	m.Ambient = 1.4
 	m.Power = mat.Specularity
 	m.DoubleSided = mat.Flags&mmd.MaterialFlagDoubleSided != 0
-	if mat.TextureID >= 0 {
+	if mat.TextureID >= 0 && mat.TextureID < len(model.Textures) {
 		m.Texture = model.Textures[mat.TextureID]
 	}
 
-- 
2.43.0


From 043cfba659801141274d379dca199f250fa6e107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:04 +0000
Subject: [PATCH 147/154] fix: MQO to glTF: bones that are their own ancestors

---
 converter/mqo2gltf.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index faf5fa7..fa29ef2 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -204,6 +204,14 @@ func (m *mqoToGltf) addMatrices(mat [][4][4]float32) uint32 {
 	return acc
 }
 
+func isOwnAncestor(b *mqo.Bone, bones map[int]*mqo.Bone) bool {
+	p := bones[b.Parent]
+	for i := 0; i < len(bones) && p != nil && p != b && p.Parent > 0; i++ {
+		p = bones[p.Parent]
+	}
+	return p == b
+}
+
 func (m *mqoToGltf) addBoneNodes(bones []*mqo.Bone) (map[int]uint32, map[uint32]*mqo.Bone) {
 	scale := m.Scale
 	idmap := map[int]uint32{}
@@ -218,7 +226,7 @@ func (m *mqoToGltf) addBoneNodes(bones []*mqo.Bone) (map[int]uint32, map[uint32]
 
 	for _, b := range bones {
 		node := m.Nodes[idmap[b.ID]]
-		if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil {
+		if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil && !isOwnAncestor(b, bonemap) {
 			node.Translation[0] = ((b.Pos.X - parent.Pos.X) * scale)
 			node.Translation[1] = ((b.Pos.Y - parent.Pos.Y) * scale)
 			node.Translation[2] = ((b.Pos.Z - parent.Pos.Z) * scale)
-- 
2.43.0


From 82dc44bd297f50f8f781f96e7b4f59abf377a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:22 +0000
Subject: [PATCH 148/154] fix: VRM: joint accessors without data

---
 gltfutil/gltf_joint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index a5f629c..de07b43 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -113,7 +113,7 @@ func FixJointComponentType(doc *gltf.Document) {
 		for _, primitiv := range mesh.Primitives {
 			for k, attr := range primitiv.Attributes {
 				accessor := doc.Accessors[attr]
-				if k == "JOINTS_0" && accessor.ComponentType == gltf.ComponentUbyte {
+				if k == "JOINTS_0" && accessor.ComponentType == gltf.ComponentUbyte && (accessor.BufferView != nil || accessor.Sparse != nil) {
 					// byte to uint16
 					joints, err := modeler.ReadJoints(doc, accessor, nil)
 					if err != nil {
-- 
2.43.0


From 3fff9c90f93707ff84172415b84f378999d491fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:51 +0000
Subject: [PATCH 149/154] fix: MQO to glTF: corners of a vertex with different
 normals shared one normal

---
 converter/mqo2gltf.go | 47 +++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index fa29ef2..4addc7e 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -32,6 +32,7 @@ import (
 )
 
 var TextureUVEpsilon float32 = 0.0001
+var NormalEpsilon float32 = 0.0001
 
 type MQOToGLTFOption struct {
 	Scale      float32 // Default: 0.001
@@ -646,6 +647,22 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 	indicesMap := map[int][]int{}
 	useTexcood0 := false
 	partial := false
+	useNormal := obj.Shading > 0 && !m.ForceUnlit
+	sameNormal := func(v int, n *geom.Vector3) bool {
+		a, b := geom.NewVector3(normals[v][0], normals[v][1], normals[v][2]), *n
+		return !useNormal || a.Normalize().Sub(b.Normalize()).LenSqr() < NormalEpsilon
+	}
+	splitVertex := func(index int) int {
+		srcIndices = append(srcIndices, index)
+		vertexes = append(vertexes, vertexes[index])
+		texcood0 = append(texcood0, [2]float32{})
+		normals = append(normals, [3]float32{})
+		if len(joints) > 0 {
+			joints0 = append(joints0, joints0[index])
+			weights0 = append(weights0, weights0[index])
+		}
+		return len(vertexes) - 1
+	}
 	for _, f := range obj.Faces {
 		if len(f.Verts) < 3 {
 			continue
@@ -671,7 +688,7 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 				if assigned != nil {
 					vi := -1
 					for _, v := range assigned {
-						if f.UVs[i].Sub(&geom.Vector2{X: texcood0[v][0], Y: texcood0[v][1]}).LenSqr() < TextureUVEpsilon {
+						if f.UVs[i].Sub(&geom.Vector2{X: texcood0[v][0], Y: texcood0[v][1]}).LenSqr() < TextureUVEpsilon && sameNormal(v, normal) {
 							verts[i] = v
 							vi = v
 						}
@@ -679,15 +696,7 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 					if vi >= 0 {
 						continue
 					}
-					verts[i] = len(vertexes)
-					srcIndices = append(srcIndices, index)
-					vertexes = append(vertexes, vertexes[index])
-					texcood0 = append(texcood0, [2]float32{})
-					normals = append(normals, [3]float32{})
-					if len(joints) > 0 {
-						joints0 = append(joints0, joints0[index])
-						weights0 = append(weights0, weights0[index])
-					}
+					verts[i] = splitVertex(index)
 				}
 				indicesMap[index] = append(indicesMap[index], verts[i])
 				texcood0[verts[i]] = [2]float32{f.UVs[i].X, f.UVs[i].Y}
@@ -696,7 +705,23 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 			}
 		} else {
 			for i, index := range verts {
-				f.Normals[i].ToArray(normals[index][:])
+				assigned := indicesMap[index]
+				vi := -1
+				for _, v := range assigned {
+					if sameNormal(v, f.Normals[i]) {
+						vi = v
+						break
+					}
+				}
+				if vi < 0 {
+					vi = index
+					if assigned != nil {
+						vi = splitVertex(index)
+					}
+					indicesMap[index] = append(indicesMap[index], vi)
+					f.Normals[i].ToArray(normals[vi][:])
+				}
+				verts[i] = vi
 			}
 		}
 		if _, exists := indices[mat]; !exists {
-- 
2.43.0


From 3a4fc16e703b952208a185a4c068132c42825aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:49 +0000
Subject: [PATCH 150/154] fix: MQO to glTF: transparency of paletted, 16 bit
 and GIF textures was not detected

---
 converter/mqo2gltf.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 4addc7e..86b7316 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -17,7 +17,6 @@ import (
 	"github.com/qmuntal/gltf/modeler"
 
 	"image"
-	"image/color"
 	"image/jpeg"
 	"image/png"
 
@@ -352,13 +351,8 @@ func (m *mqoToGltf) hasAlpha(texture string, textures *textureCache, rect *uvrec
 			img = s.SubImage(r)
 		}
 	}
-	switch img.ColorModel() {
-	case color.YCbCrModel, color.CMYKModel:
-		return false
-	case color.RGBAModel:
-		return !img.(*image.RGBA).Opaque()
-	case color.NRGBAModel:
-		return !img.(*image.NRGBA).Opaque()
+	if img, ok := img.(interface{ Opaque() bool }); ok {
+		return !img.Opaque()
 	}
 	return false
 }
-- 
2.43.0


From 579b8067548c7583ea6ce152216907547b58eb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:49 +0000
Subject: [PATCH 151/154] fix: a null entry in boneMappings crashed the
 conversion of MMD models

---
 cmd/modelconv/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/modelconv/utils.go b/cmd/modelconv/utils.go
index 0511032..15653b6 100644
--- a/cmd/modelconv/utils.go
+++ b/cmd/modelconv/utils.go
@@ -54,6 +54,9 @@ func loadDocument(input string) (*mqo.Document, error) {
 		if *vrmconf != "" {
 			if conf, err := converter.LoadVRMConfig(*vrmconf); err == nil {
 				for _, b := range conf.BoneMappings {
+					if b == nil {
+						continue
+					}
 					knownBoneNames = append(knownBoneNames, b.NodeNames...)
 				}
 			}
-- 
2.43.0


From 3760342702454d49ee026fc4c7da8c34ae6f5d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:56 +0000
Subject: [PATCH 152/154] fix: Unity to MQO: mesh colliders of boxes and
 spheres ignored the scale of the object

---
 converter/unity2mqo.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 85ece95..a143a52 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -233,7 +233,6 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 
 func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.Matrix4, obj *mqo.Object) {
 	var shapes []*mqo.PhysicsShape
-	scale := c.ConvertScale
 	_, rot, sc := transform.Decompose()
 	angle := geom.NewEulerFromQuaternion(rot, geom.RotationOrderZXY)
 
@@ -281,14 +280,14 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 					Type:     "BOX",
 					Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&geom.Vector3{})),
 					Rotation: mqo.Vector3XmlAttr(angle.Vector3),
-					Size:     mqo.Vector3XmlAttr{X: size * scale, Y: size * scale, Z: size * scale},
+					Size:     mqo.Vector3XmlAttr{X: size * sc.X * 0.5, Y: size * sc.Y * 0.5, Z: size * sc.Z * 0.5},
 				})
 			case "Sphere":
 				const radius = 0.5
 				shapes = append(shapes, &mqo.PhysicsShape{
 					Type:     "SPHERE",
 					Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&geom.Vector3{})),
-					Size:     mqo.Vector3XmlAttr{X: radius * scale, Y: radius * scale, Z: radius * scale},
+					Size:     mqo.Vector3XmlAttr{X: radius * sc.X, Y: radius * sc.Y, Z: radius * sc.Z},
 				})
 			default:
 				shapes = append(shapes, &mqo.PhysicsShape{
-- 
2.43.0


From 0a6450cdce32812b7b50c47ede30b81d397ed0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:06 +0000
Subject: [PATCH 153/154] fix: Unity to MQO: the direction of capsule colliders
 was ignored

---
 converter/unity2mqo.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index a143a52..70add99 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -259,10 +260,18 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	var capsuleColliders []*unity.CapsuleCollider
 	o.GetComponents(&capsuleColliders)
 	for _, co := range capsuleColliders {
+		angle, axisScale := angle, sc.Y
+		if co.Direction == 0 { // X axis
+			q := rot.Mul(geom.NewQuaternion(0, 0, math.Sqrt2/2, math.Sqrt2/2))
+			angle, axisScale = geom.NewEulerFromQuaternion(q, geom.RotationOrderZXY), sc.X
+		} else if co.Direction == 2 { // Z axis
+			q := rot.Mul(geom.NewQuaternion(math.Sqrt2/2, 0, 0, math.Sqrt2/2))
+			angle, axisScale = geom.NewEulerFromQuaternion(q, geom.RotationOrderZXY), sc.Z
+		}
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "CAPSULE",
 			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(flipZ(&co.Center))),
-			Size:     mqo.Vector3XmlAttr{X: co.Radius * sc.X, Y: (co.Height - co.Radius*2) * sc.Y, Z: co.Radius * sc.Z},
+			Size:     mqo.Vector3XmlAttr{X: co.Radius * sc.X, Y: (co.Height - co.Radius*2) * axisScale, Z: co.Radius * sc.Z},
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
 	}
-- 
2.43.0


From 66bce320493edaab1bbb64ed8930a9bf1a91716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:51 +0000
Subject: [PATCH 154/154] fix: packages with an upper case extension
 (X.UNITYPACKAGE) could not be opened

---
 cmd/modelconv/main.go  | 2 +-
 cmd/modelconv/utils.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 0092eb8..883cb20 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -400,7 +400,7 @@ func main() {
 		}
 	}
 
-	if isUnity(inputExt) && !strings.HasSuffix(input, ".unitypackage") {
+	if isUnity(inputExt) && inputExt != ".unitypackage" {
 		names := strings.SplitN(input, "#", 2)
 		if len(names) == 1 {
 			p := indexAssetsDir(input)
diff --git a/cmd/modelconv/utils.go b/cmd/modelconv/utils.go
index 15653b6..ace85d6 100644
--- a/cmd/modelconv/utils.go
+++ b/cmd/modelconv/utils.go
@@ -77,7 +77,7 @@ func loadDocument(input string) (*mqo.Document, error) {
 		}
 		var assets unity.Assets
 		var err error
-		if strings.HasSuffix(names[0], ".unitypackage") {
+		if strings.ToLower(filepath.Ext(names[0])) == ".unitypackage" {
 			assets, err = unity.OpenPackage(names[0])
 		} else {
 			assets, err = unity.OpenAssets(names[0])
-- 
2.43.0

