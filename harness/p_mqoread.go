package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/mqo"
	"golang.org/x/text/encoding/japanese"
)

func init() {
	register(&Prop{
		ID:          "P06",
		Rule:        "seeded documents serialised by an independent MQO/MQX encoder: UTF-8 or Shift_JIS (second bytes 0x5C included, files over 4 KB), LF/CRLF, varying indentation and number formats, permuted keys and attributes, unknown chunks/attributes, thumbnails, backslash paths, .mqoz archives with other members, arbitrary read sizes; what the loader returns must equal the encoded document; signature = encoder options + content",
		Assumptions: []string{"files follow the Metasequoia text layout (one face or material per line, vertex block before vertex attributes)"},
		Require:     []string{"utf8", "sjis", "crlf", "thumbnail", "unknown_chunk", "unknown_attr", "mqoz", "mqx", "backslash", "over4k", "small_reads", "ex2", "partial_normals"},
		Cases:       mqoReadCases,
	})
}

type mqoOpts struct {
	sjis, crlf, thumb, unknown, backslash bool
	fmt                                   int
	indent                                string
}

type mqoEnc struct {
	strings.Builder
	o mqoOpts
	r *rand.Rand
}

func (e *mqoEnc) line(level int, f string, a ...interface{}) {
	e.WriteString(strings.Repeat(e.o.indent, level))
	e.WriteString(fmt.Sprintf(f, a...))
	if e.o.crlf {
		e.WriteString("\r\n")
	} else {
		e.WriteString("\n")
	}
}

// num formats a value so that it parses back to the same float32.
func (e *mqoEnc) num(v float32) string {
	switch e.r.Intn(4) {
	case 0:
		return strconv.FormatFloat(float64(v), 'f', -1, 32)
	case 1:
		return strconv.FormatFloat(float64(v), 'e', -1, 32)
	case 2:
		s := strconv.FormatFloat(float64(v), 'f', 60, 64) // exact decimal expansion of a moderate float
		if e.o.fmt == 1 {
			return s
		}
	}
	s := strconv.FormatFloat(float64(v), 'f', -1, 32)
	if !strings.Contains(s, ".") {
		s += ".0000"
	} else if e.r.Intn(2) == 0 {
		s += "00"
	}
	return s
}

func (e *mqoEnc) nums(v ...float32) string {
	var s []string
	for _, x := range v {
		s = append(s, e.num(x))
	}
	return strings.Join(s, " ")
}

func (e *mqoEnc) path(p string) string {
	if e.o.backslash {
		return strings.Replace(p, "/", "\\", -1)
	}
	return p
}

// sep separates the attributes of a line.
func (e *mqoEnc) sep() string {
	return []string{" ", " ", " ", "  ", "\t"}[e.r.Intn(5)]
}

func (e *mqoEnc) shuffle(s []string) []string {
	e.r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
	return s
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func sortedKeys(m map[string]interface{}) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func (e *mqoEnc) params(level int, m map[string]interface{}) {
	for _, k := range e.shuffle(sortedKeys(m)) {
		q := k
		if e.r.Intn(2) == 0 {
			q = `"` + k + `"`
		}
		switch v := m[k].(type) {
		case int:
			e.line(level, "%s int %d", q, v)
		case float32:
			e.line(level, "%s float %s", q, e.num(v))
		case bool:
			s := fmt.Sprint(v)
			if e.r.Intn(2) == 0 {
				s = fmt.Sprint(b2i(v))
			}
			e.line(level, "%s bool %s", q, s)
		case []float32:
			e.line(level, "%s color %s", q, e.nums(v...))
		case string:
			e.line(level, "%s string \"%s\"", q, v)
		}
	}
}

func encMQO(d *mqo.Document, o mqoOpts, r *rand.Rand, xmlName string) string {
	e := &mqoEnc{o: o, r: r}
	e.line(0, "Metasequoia Document")
	e.line(0, "Format Text Ver 1.%d", r.Intn(3))
	if !o.sjis {
		e.line(0, "CodePage utf8")
	}
	e.line(0, "")
	if xmlName != "" {
		e.line(0, "IncludeXml \"%s\"", xmlName)
	}
	if o.thumb {
		e.line(0, "Thumbnail 8 8 24 rgb raw {")
		for i := 0; i < 8; i++ {
			s := ""
			for k := 0; k < 24; k++ {
				s += fmt.Sprintf("%02X", r.Intn(256))
			}
			if r.Intn(2) == 0 {
				s = strings.ToLower(s)
			}
			e.line(1, "%s", s)
		}
		e.line(0, "}")
	}
	if s := d.Scene; s != nil {
		e.line(0, "Scene {")
		ls := []string{
			"pos " + e.nums(s.CameraPos.X, s.CameraPos.Y, s.CameraPos.Z),
			"lookat " + e.nums(s.CameraLookAt.X, s.CameraLookAt.Y, s.CameraLookAt.Z),
			"head " + e.num(s.CameraRot.Y), "pich " + e.num(s.CameraRot.X), "bank " + e.num(s.CameraRot.Z),
			"zoom2 " + e.num(s.Zoom2), fmt.Sprintf("ortho %d", b2i(s.Ortho)),
			"frontclip " + e.num(s.FrontClip), "backclip " + e.num(s.BackClip),
		}
		if s.AmbientLight != nil {
			ls = append(ls, "amb "+e.nums(s.AmbientLight.X, s.AmbientLight.Y, s.AmbientLight.Z))
		}
		if o.unknown {
			ls = append(ls, "zoom_perspective 1.5", "dirlights 1 {\n light {\n dir 0.408 0.408 0.816\n color 1.000 1.000 1.000\n }\n }")
		}
		for _, l := range e.shuffle(ls) {
			e.line(1, "%s", l)
		}
		e.line(0, "}")
	}
	if o.unknown {
		e.line(0, "BackImage {")
		e.line(1, "pers \"%s\" %s", "back.bmp", e.nums(1, 2, 3, 4))
		e.line(0, "}")
	}
	if len(d.Materials) > 0 {
		e.line(0, "Material %d {", len(d.Materials))
		for _, m := range d.Materials {
			at := []string{fmt.Sprintf("col(%s)", e.nums(m.Color.X, m.Color.Y, m.Color.Z, m.Color.W)),
				"dif(" + e.num(m.Diffuse) + ")", "amb(" + e.num(m.Ambient) + ")", "emi(" + e.num(m.Emission) + ")", "spc(" + e.num(m.Specular) + ")", "power(" + e.num(m.Power) + ")"}
			if m.Shader != 0 || r.Intn(2) == 0 {
				at = append(at, fmt.Sprintf("shader(%d)", m.Shader))
			}
			if m.DoubleSided || r.Intn(2) == 0 {
				at = append(at, fmt.Sprintf("dbls(%d)", b2i(m.DoubleSided)))
			}
			if m.UID != 0 {
				at = append(at, fmt.Sprintf("uid(%d)", m.UID))
			}
			if m.EmissionColor != nil {
				at = append(at, "emi_col("+e.nums(m.EmissionColor.X, m.EmissionColor.Y, m.EmissionColor.Z)+")")
			}
			for _, t := range [][2]string{{"tex", m.Texture}, {"aplane", m.AlphaTexture}, {"bump", m.BumpTexture}} {
				if t[1] != "" {
					at = append(at, t[0]+"(\""+e.path(t[1])+"\")")
				}
			}
			if o.unknown {
				at = append(at, "vcol(1)", "reflect(0.500)", "refract(1.000)", "amb_col(0.1 0.2 0.3)", "proj_type(0)", "proj_pos(0 0 -1)", "proj_name(\"a) b(\")")
			}
			e.line(1, "\"%s\" %s", m.Name, strings.Join(e.shuffle(at), e.sep()))
		}
		e.line(0, "}")
	}
	nex := 0
	for _, m := range d.Materials {
		if m.Ex2 != nil {
			nex++
		}
	}
	if nex > 0 {
		e.line(0, "MaterialEx2 %d {", nex)
		var idx []int
		for i := range d.Materials {
			if d.Materials[i].Ex2 != nil {
				idx = append(idx, i)
			}
		}
		r.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
		for _, i := range idx {
			x := d.Materials[i].Ex2
			e.line(1, "material %d {", i)
			e.line(2, "shadertype \"%s\"", x.ShaderType)
			e.line(2, "shadername \"%s\"", x.ShaderName)
			if len(x.ShaderParams) > 0 || r.Intn(2) == 0 {
				e.line(2, "shaderparam %d {", len(x.ShaderParams))
				e.params(3, x.ShaderParams)
				e.line(2, "}")
			}
			if len(x.ShaderMapping) > 0 {
				e.line(2, "shadermapping %d {", len(x.ShaderMapping))
				var ks []string
				for k := range x.ShaderMapping {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					e.line(3, "\"%s\" \"%s\"", k, e.path(x.ShaderMapping[k]))
				}
				e.line(2, "}")
			}
			var ks []string
			for k := range x.ShaderMappingParams {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				e.line(2, "shadermappingparam \"%s\" %d {", k, len(x.ShaderMappingParams[k]))
				e.params(3, x.ShaderMappingParams[k])
				e.line(2, "}")
			}
			e.line(1, "}")
		}
		e.line(0, "}")
	}
	for _, ob := range d.Objects {
		e.line(0, "Object \"%s\" {", ob.Name)
		at := []string{
			fmt.Sprintf("depth %d", ob.Depth), fmt.Sprintf("folding %d", b2i(ob.Folding)),
			"scale " + e.nums(ob.Scale.X, ob.Scale.Y, ob.Scale.Z),
			"rotation " + e.nums(ob.Rotation.Y, ob.Rotation.X, ob.Rotation.Z),
			"translation " + e.nums(ob.Translation.X, ob.Translation.Y, ob.Translation.Z),
			fmt.Sprintf("locking %d", b2i(ob.Locked)), fmt.Sprintf("shading %d", ob.Shading), "facet " + e.num(ob.Facet),
		}
		if ob.UID != 0 {
			at = append(at, fmt.Sprintf("uid %d", ob.UID))
		}
		if ob.Visible {
			if r.Intn(2) == 0 {
				at = append(at, fmt.Sprintf("visible %d", []int{1, 15}[r.Intn(2)]))
			}
		} else {
			at = append(at, "visible 0")
		}
		if ob.Patch != 0 || r.Intn(2) == 0 {
			at = append(at, fmt.Sprintf("patch %d", ob.Patch), fmt.Sprintf("segment %d", ob.PatchSegment))
		}
		if ob.Mirror != 0 || ob.MirrorDis != 0 {
			at = append(at, fmt.Sprintf("mirror %d", ob.Mirror), "mirror_dis "+e.num(ob.MirrorDis))
		}
		if ob.Color != nil {
			at = append(at, "color "+e.nums(ob.Color.X, ob.Color.Y, ob.Color.Z))
		}
		if o.unknown {
			at = append(at, "color_type 0", "patchtri 0", "mirror_axis 1", "lathe 1", "normal_weight 1")
		}
		for _, l := range e.shuffle(at) {
			e.line(1, "%s", l)
		}
		e.line(1, "vertex %d {", len(ob.Vertexes))
		for _, v := range ob.Vertexes {
			e.line(2, "%s", e.nums(v.X, v.Y, v.Z))
		}
		e.line(1, "}")
		if len(ob.VertexByUID) > 0 {
			e.line(1, "vertexattr {")
			if o.unknown {
				e.line(2, "color {")
				for range ob.Vertexes {
					e.line(3, "4294967295")
				}
				e.line(2, "}")
			}
			e.line(2, "uid {")
			ids := make([]int, len(ob.Vertexes))
			for id, i := range ob.VertexByUID {
				ids[i] = id
			}
			for _, id := range ids {
				e.line(3, "%d", id)
			}
			e.line(2, "}")
			if o.unknown {
				e.line(2, "weit {")
				e.line(3, "0 1.000")
				e.line(2, "}")
			}
			e.line(1, "}")
		}
		e.line(1, "face %d {", len(ob.Faces))
		for _, f := range ob.Faces {
			var at []string
			vs := []string{}
			for _, v := range f.Verts {
				vs = append(vs, fmt.Sprint(v))
			}
			at = append(at, "V("+strings.Join(vs, " ")+")")
			if f.Material != 0 || r.Intn(2) == 0 {
				at = append(at, fmt.Sprintf("M(%d)", f.Material))
			}
			if f.UID != 0 {
				at = append(at, fmt.Sprintf("UID(%d)", f.UID))
			}
			if len(f.UVs) > 0 {
				var u []string
				for _, x := range f.UVs {
					u = append(u, e.nums(x.X, x.Y))
				}
				at = append(at, "UV("+strings.Join(u, " ")+")")
			}
			if len(f.Normals) > 0 {
				var fl, ns []string
				for _, n := range f.Normals {
					if n == nil {
						fl = append(fl, fmt.Sprint(r.Intn(2)))
					} else {
						fl = append(fl, fmt.Sprint(2+r.Intn(2)))
						ns = append(ns, e.nums(n.X, n.Y, n.Z))
					}
				}
				at = append(at, "N("+strings.Join(append(fl, ns...), " ")+")")
			}
			if o.unknown {
				at = append(at, "COL("+strings.TrimSpace(strings.Repeat("4294967295 ", len(f.Verts)))+")")
				if len(f.Verts) > 0 {
					at = append(at, "CRS("+strings.TrimSpace(strings.Repeat("1.000 ", len(f.Verts)))+")")
				}
			}
			tl := ""
			if o.fmt == 2 {
				tl = " "
			}
			e.line(2, "%d %s%s", len(f.Verts), strings.Join(e.shuffle(at), e.sep()), tl)
		}
		e.line(1, "}")
		e.line(0, "}")
	}
	if o.unknown {
		e.line(0, "Blob \"x\" {")
		e.line(1, "polygonsize 10")
		e.line(1, "cell 1 {")
		e.line(2, "depth 7")
		e.line(1, "}")
		e.line(0, "}")
	}
	e.line(0, "Eof")
	return e.String()
}

func xmlEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;", "'", "&apos;", "\t", "&#9;", "\n", "&#10;").Replace(s)
}

func g32(v float32) string { return strconv.FormatFloat(float64(v), 'g', -1, 32) }

// encMQX is an independent writer of the companion XML.
func encMQX(d *mqo.Document, r *rand.Rand) string {
	var b strings.Builder
	w := func(f string, a ...interface{}) { fmt.Fprintf(&b, f, a...) }
	w("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<MetasequoiaDocument>\n<IncludedBy>x.mqo</IncludedBy>\n")
	v3 := func(tag string, v mqo.Vector3XmlAttr) {
		w("<%s x=\"%s\" y=\"%s\" z=\"%s\"/>", tag, g32(v.X), g32(v.Y), g32(v.Z))
	}
	for _, p := range d.Plugins {
		switch p := p.(type) {
		case *mqo.BonePlugin:
			w("<Plugin.56A31D20.71F282AB name=\"Bone\">\n<BoneSet2 limit=\"%d\">\n", p.BoneSet2.Limit)
			for _, bn := range p.Bones() {
				w("<Bone id=\"%d\" name=\"%s\" group=\"%d\" parent=\"%d\" pos=\"%s,%s,%s\" movable=\"%d\" hide=\"%d\" dummy=\"%d\"", bn.ID, xmlEsc(bn.Name), bn.Group, bn.Parent,
					g32(bn.Pos.X), g32(bn.Pos.Y), g32(bn.Pos.Z), bn.Movable, bn.Hide, bn.Dummy)
				if bn.Color != "" {
					w(" color=\"%s\"", bn.Color)
				}
				if bn.UpVector != nil {
					w(" upVector=\"%s,%s,%s\"", g32(bn.UpVector.X), g32(bn.UpVector.Y), g32(bn.UpVector.Z))
				}
				if bn.Rotate != nil {
					w(" rotate=\"%s,%s,%s\"", g32(bn.Rotate.X), g32(bn.Rotate.Y), g32(bn.Rotate.Z))
				}
				w(" future=\"1\">\n")
				if bn.IK != nil {
					w("<IK chain=\"%d\" name=\"%s\" tipName=\"%s\"/>", bn.IK.ChainCount, xmlEsc(bn.IK.Name), xmlEsc(bn.IK.TipName))
				}
				for _, bw := range bn.Weights {
					w("<W obj=\"%d\">", bw.ObjectID)
					for _, x := range bw.Vertexes {
						w("<V v=\"%d\" w=\"%s\"/>", x.VertexID, g32(x.Weight))
					}
					w("</W>\n")
				}
				w("</Bone>\n")
			}
			w("</BoneSet2>\n<Poses>")
			for _, q := range p.PoseSet.BonePoses {
				w("<Pose id=\"%d\" name=\"%s\" mvX=\"%s\" mvY=\"%s\" mvZ=\"%s\" rotB=\"%s\" rotH=\"%s\" rotP=\"%s\" scB=\"%s\" scH=\"%s\" scP=\"%s\"/>", q.ID, xmlEsc(q.Name),
					g32(q.MvX), g32(q.MvY), g32(q.MvZ), g32(q.RotB), g32(q.RotH), g32(q.RotP), g32(q.ScB), g32(q.ScH), g32(q.ScP))
			}
			w("</Poses>\n</Plugin.56A31D20.71F282AB>\n")
		case *mqo.MorphPlugin:
			w("<Plugin.56A31D20.C452C6DB name=\"Morph\"><MorphSet>")
			for _, t := range p.Morphs() {
				w("<TargetList base=\"%s\">", xmlEsc(t.Base))
				for _, x := range t.Target {
					w("<Target name=\"%s\" param=\"%d\"/>", xmlEsc(x.Name), x.Param)
				}
				w("</TargetList>\n")
			}
			w("</MorphSet></Plugin.56A31D20.C452C6DB>\n")
		case *mqo.PhysicsPlugin:
			w("<Plugin.7A6E6962.43594850 name=\"Physics Plugin\"><Bodies>")
			for _, x := range p.Bodies {
				w("<Body mass=\"%s\" kinematic=\"%v\" name=\"%s\" targetBone=\"%d\" targetObj=\"%d\"><Shapes>", g32(x.Mass), x.Kinematic, xmlEsc(x.Name), x.TargetBoneID, x.TargetObjID)
				for _, s := range x.Shapes {
					w("<Shape type=\"%s\">", s.Type)
					v3("Size", s.Size)
					v3("Position", s.Position)
					v3("Rotation", s.Rotation)
					w("</Shape>")
				}
				w("</Shapes><CollisionGroup>%d</CollisionGroup><CollisionMask>%d</CollisionMask><Restitution>%s</Restitution><Friction>%s</Friction><LinearDamping>%s</LinearDamping><AngularDamping>%s</AngularDamping></Body>\n",
					x.CollisionGroup, x.CollisionMask, g32(x.Restitution), g32(x.Friction), g32(x.LinearDamping), g32(x.AngularDamping))
			}
			w("</Bodies><Constraints>")
			for _, x := range p.Constraints {
				w("<Joint type=\"%s\" body1=\"%d\" body2=\"%d\" name=\"%s\">", x.Type, x.Body1, x.Body2, xmlEsc(x.Name))
				v3("Position", x.Position)
				v3("Rotation", x.Rotation)
				v3("LinerSpring", x.LinerSpring)
				v3("AngulerSpring", x.AngulerSpring)
				w("</Joint>")
			}
			w("</Constraints></Plugin.7A6E6962.43594850>\n")
		}
	}
	w("<UnknownPlugin><a>1</a></UnknownPlugin>\n</MetasequoiaDocument>\n")
	return b.String()
}

func sjisName(s string) string {
	if _, err := japanese.ShiftJIS.NewEncoder().String(s); err == nil {
		return s
	}
	out := ""
	for _, r := range s {
		if b, err := japanese.ShiftJIS.NewEncoder().String(string(r)); err == nil && b != "" {
			out += string(r)
		} else {
			out += "ソ"
		}
	}
	return out
}

func mqoReadCases(r *Run) {
	n := r.N(1, 12)
	gen := func(c *C) (*mqo.Document, mqoOpts) {
		d := genMQO(c.R, c.R.Intn(2) == 0)
		o := mqoOpts{sjis: c.R.Intn(2) == 0, crlf: c.R.Intn(2) == 0, thumb: c.R.Intn(3) == 0, unknown: c.R.Intn(2) == 0, backslash: c.R.Intn(2) == 0,
			fmt: c.R.Intn(3), indent: []string{"\t", " ", "    ", ""}[c.R.Intn(4)]}
		if o.sjis {
			c.Obs("sjis")
			for _, m := range d.Materials {
				m.Name, m.Texture, m.AlphaTexture, m.BumpTexture = sjisName(m.Name), sjisName(m.Texture), sjisName(m.AlphaTexture), sjisName(m.BumpTexture)
				if m.Ex2 != nil {
					fixp := func(p map[string]interface{}) {
						for k, v := range p {
							if s, ok := v.(string); ok {
								p[k] = sjisName(s)
							}
						}
					}
					fixp(m.Ex2.ShaderParams)
					for k, v := range m.Ex2.ShaderMapping {
						m.Ex2.ShaderMapping[k] = sjisName(v)
					}
					for _, p := range m.Ex2.ShaderMappingParams {
						fixp(p)
					}
				}
			}
			for _, ob := range d.Objects {
				ob.Name = sjisName(ob.Name)
			}
			if c.R.Intn(2) == 0 { // push the interesting characters over every buffer boundary
				for i := 0; i < 60; i++ {
					ob := mqo.NewObject(fmt.Sprintf("%s%d", strings.Repeat([]string{"表", "ソ能", "a表", "ｱ十"}[c.R.Intn(4)], 20+c.R.Intn(20)), i))
					d.Objects = append(d.Objects, ob)
				}
			}
		} else {
			c.Obs("utf8")
		}
		for k, v := range map[string]bool{"crlf": o.crlf, "thumbnail": o.thumb, "unknown_chunk": o.unknown, "unknown_attr": o.unknown && len(d.Materials) > 0} {
			if v {
				c.Obs(k)
			}
		}
		for _, m := range d.Materials {
			if o.backslash && m.Texture != "" {
				c.Obs("backslash")
			}
			if m.Ex2 != nil {
				c.Obs("ex2")
			}
		}
		for _, ob := range d.Objects {
			for _, f := range ob.Faces {
				for _, x := range f.Normals {
					if x == nil {
						c.Obs("partial_normals")
					}
				}
			}
		}
		return d, o
	}
	enc := func(c *C, d *mqo.Document, o mqoOpts, x string) []byte {
		s := encMQO(d, o, c.R, x)
		b := []byte(s)
		if o.sjis {
			b = sjis(s)
		}
		if len(b) > 4096 {
			c.Obs("over4k")
		}
		return b
	}
	differFor := func(want, got *mqo.Document) []string {
		df := mqoDiffer()
		df.tolFor = nil
		df.walkAny(want, got)
		if len(df.out) > 0 {
			return df.out
		}
		return diffMQO(want, got)
	}
	r.Repeat("stream", 500*n, func(c *C) {
		d, o := gen(c)
		d.Plugins = nil
		b := enc(c, d, o, "")
		got, err := mqo.NewParser(hostileReader(c, b), "").Parse()
		if err != nil {
			c.Fatalf("%+v: %v\n%s", o, err, tail(string(b), 3000))
		}
		if df := differFor(d, got); len(df) > 0 {
			c.Failf("%+v: %v", o, df)
		}
		c.Sig("%+v %d", o, len(b))
	})
	r.Repeat("file", 200*n, func(c *C) {
		d, o := gen(c)
		x := ""
		if len(d.Plugins) > 0 {
			x = []string{"model bone.mqx", "Model.MQX", "モデル.mqx", "a.b.Mqx"}[c.R.Intn(4)]
			must(os.WriteFile(filepath.Join(c.Dir(), x), []byte(encMQX(d, c.R)), 0644))
			c.Obs("mqx")
		} else if c.R.Intn(4) == 0 {
			x = "missing.mqx"
		}
		p := filepath.Join(c.Dir(), "m.mqo")
		must(os.WriteFile(p, enc(c, d, o, x), 0644))
		got, err := mqo.Load(p)
		if err != nil {
			c.Fatalf("%+v: %v", o, err)
		}
		if df := differFor(d, got); len(df) > 0 {
			c.Failf("%+v: %v", o, df)
		}
		c.Sig("file %+v %d", o, c.R.Int63())
	})
	r.Repeat("mqoz", 200*n, func(c *C) {
		d, o := gen(c)
		x := ""
		if len(d.Plugins) > 0 {
			x = "モデル.mqx"
			c.Obs("mqx")
		}
		p := filepath.Join(c.Dir(), "m.mqoz")
		var buf bytes.Buffer
		zw := zip.NewWriter(&buf)
		add := func(name string, b []byte) {
			m := zip.Deflate
			if c.R.Intn(2) == 0 {
				m = zip.Store
			}
			w, err := zw.CreateHeader(&zip.FileHeader{Name: name, Method: m})
			must(err)
			_, err = w.Write(b)
			must(err)
		}
		fs := []func(){func() { add("モデル.mqo", enc(c, d, o, x)) }, func() { add("tex/a.png", []byte("x")) }, func() { add("readme.mqo.txt", []byte("Object {")) }}
		if c.R.Intn(3) == 0 { // side data of other documents
			fs = append(fs, func() { add("other.mqx", []byte(encMQX(genMQO(c.R, true), c.R))) })
			c.Obs("mqoz_other_mqx")
		}
		if c.R.Intn(20) == 0 {
			ob := mqo.NewObject("large")
			for i := 0; i < 4000; i++ {
				ob.Vertexes = append(ob.Vertexes, pv(gv3(c.R)))
			}
			d.Objects = append(d.Objects, ob)
			c.Obs("mqoz_large")
		}
		if x != "" {
			fs = append(fs, func() { add(x, []byte(encMQX(d, c.R))) })
		}
		c.R.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		for _, f := range fs {
			f()
		}
		must(zw.Close())
		must(os.WriteFile(p, buf.Bytes(), 0644))
		got, err := mqo.Load(p)
		if err != nil {
			c.Fatalf("%+v: %v", o, err)
		}
		c.Obs("mqoz")
		if df := differFor(d, got); len(df) > 0 {
			c.Failf("%+v: %v", o, df)
		}
		c.Sig("mqoz %+v %d", o, c.R.Int63())
	})
}

var _ = io.EOF
