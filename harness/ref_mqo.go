package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

// deepCopy clones exported data reachable from v.
func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	}
	return v
}

func cloneMQO(d *mqo.Document) *mqo.Document {
	return deepCopy(reflect.ValueOf(d)).Interface().(*mqo.Document)
}

var mqoNameAlphabet = append([]string{"'", "(", ")", "{", "}", "//", "/", "<", "&", ">", ",", "#", "%s", "%", "😀", "Object", "Eof", "\t", ":", "$", "`", "=", "|"}, nameAlphabet...)

func mqoName(r *rand.Rand) string {
	s := rname(r, mqoNameAlphabet, 5)
	return s
}

func texName(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return ""
	}
	return "tex/" + strings.Trim(rname(r, nameAlphabet, 3), " ") + []string{".png", ".jpg", ".bmp", ""}[r.Intn(4)]
}

func pv(v geom.Vector3) *geom.Vector3 { return &v }

func maybeUID(r *rand.Rand, i int) int {
	if r.Intn(2) == 0 {
		return 0
	}
	return 1000 + i*7 + r.Intn(7)
}

func genEx2Params(r *rand.Rand, n int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("p%d%s", i, rname(r, []string{"a", "B", "_x", "7"}, 3))
		if r.Intn(5) == 0 {
			k += ".sub" + fmt.Sprint(i)
		}
		switch r.Intn(5) {
		case 0:
			m[k] = r.Intn(7) - 3
		case 1:
			m[k] = rf(r)
		case 2:
			m[k] = r.Intn(2) == 0
		case 3:
			m[k] = []float32{rf(r), rf(r), rf(r), rf(r)}
		case 4:
			m[k] = "s" + rname(r, nameAlphabet, 3)
		}
	}
	return m
}

// genMQO builds a document whose content exercises every field of the format.
func genMQO(r *rand.Rand, plugins bool) *mqo.Document {
	d := mqo.NewDocument()
	if r.Intn(4) > 0 {
		d.Scene = &mqo.Scene{CameraPos: gv3(r), CameraLookAt: gv3(r), CameraRot: gv3(r), Zoom2: rf(r), Ortho: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			d.Scene.AmbientLight = pv(gv3(r))
		}
		if r.Intn(2) == 0 {
			d.Scene.FrontClip, d.Scene.BackClip = 1+r.Float32(), 100+r.Float32()
			switch r.Intn(4) {
			case 0:
				d.Scene.FrontClip = 0
			case 1:
				d.Scene.BackClip = 0
			}
		}
	}
	usedM := map[string]bool{}
	for i, n := 0, r.Intn(6); i < n; i++ {
		m := &mqo.Material{Name: mqoName(r), UID: maybeUID(r, i), Color: gv4(r), Diffuse: rf(r), Ambient: rf(r), Emission: rf(r), Specular: rf(r), Power: rf(r),
			Texture: texName(r), BumpTexture: texName(r), AlphaTexture: texName(r), DoubleSided: r.Intn(2) == 0, Shader: r.Intn(5)}
		for usedM[m.Name] {
			m.Name += fmt.Sprint(i)
		}
		usedM[m.Name] = true
		if r.Intn(3) == 0 {
			m.EmissionColor = pv(gv3(r))
		}
		if r.Intn(3) == 0 {
			m.Ex2 = mqo.NewMaterialEx2([]string{"glTF", "pmd", "x"}[r.Intn(3)])
			m.Ex2.ShaderType = []string{"", "hlsl"}[r.Intn(2)]
			m.Ex2.ShaderParams = genEx2Params(r, r.Intn(6))
			for k := r.Intn(3); k > 0; k-- {
				m.Ex2.ShaderMapping[fmt.Sprintf("Map%d", k)] = texName(r)
				if r.Intn(2) == 0 {
					m.Ex2.ShaderMappingParams[fmt.Sprintf("Map%d", k)] = genEx2Params(r, r.Intn(4))
				}
			}
		}
		d.Materials = append(d.Materials, m)
	}
	used := map[string]bool{}
	depth := 0
	for i, n := 0, r.Intn(6); i < n; i++ {
		o := mqo.NewObject(mqoName(r))
		for used[o.Name] {
			o.Name += fmt.Sprint(i)
		}
		used[o.Name] = true
		o.UID = maybeUID(r, i)
		o.Visible, o.Locked, o.Folding = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
		o.Depth = depth
		depth += r.Intn(3) - 1
		if depth < 0 {
			depth = 0
		}
		o.Shading, o.Facet = r.Intn(2), rf(r)
		if r.Intn(3) == 0 {
			o.Patch, o.PatchSegment = 1+r.Intn(4), 1+r.Intn(10)
		}
		if r.Intn(3) == 0 {
			o.Mirror = r.Intn(3)
			o.MirrorDis = rf(r)
		}
		o.Scale, o.Rotation, o.Translation = pv(gv3(r)), pv(gv3(r)), pv(gv3(r))
		if r.Intn(2) == 0 {
			o.Color = pv(gv3(r))
		}
		nv := r.Intn(12)
		for k := 0; k < nv; k++ {
			o.Vertexes = append(o.Vertexes, pv(gv3(r)))
		}
		if nv > 0 && r.Intn(2) == 0 {
			uid := 100
			for _, k := range r.Perm(nv) {
				uid += 1 + r.Intn(3)
				o.VertexByUID[uid] = k
			}
		}
		if nv > 0 {
			for k := r.Intn(8); k > 0; k-- {
				f := &mqo.Face{UID: maybeUID(r, k), Material: r.Intn(len(d.Materials)+2) - 1}
				fn := r.Intn(6)
				for j := 0; j < fn; j++ {
					f.Verts = append(f.Verts, r.Intn(nv))
				}
				if r.Intn(2) == 0 {
					for j := 0; j < fn; j++ {
						f.UVs = append(f.UVs, geom.Vector2{X: rf(r), Y: rf(r)})
					}
				}
				if r.Intn(2) == 0 {
					for j := 0; j < fn; j++ {
						if r.Intn(3) == 0 {
							f.Normals = append(f.Normals, nil)
						} else {
							f.Normals = append(f.Normals, pv(gv3(r)))
						}
					}
				}
				o.Faces = append(o.Faces, f)
			}
		}
		d.Objects = append(d.Objects, o)
	}
	if plugins {
		genPlugins(r, d)
	}
	return d
}

func va(r *rand.Rand) *mqo.Vector3Attr { return &mqo.Vector3Attr{Vector3: gv3(r)} }
func vx(r *rand.Rand) mqo.Vector3XmlAttr {
	return mqo.Vector3XmlAttr(gv3(r))
}

func genPlugins(r *rand.Rand, d *mqo.Document) {
	if r.Intn(4) > 0 {
		bp := mqo.GetBonePlugin(d)
		bp.BoneSet2.Limit = r.Intn(5)
		for i, n := 0, r.Intn(6); i < n; i++ {
			b := &mqo.Bone{ID: i + 1, Name: mqoName(r), Group: r.Intn(3), Parent: r.Intn(i + 1), Pos: *va(r), Movable: r.Intn(2), Hide: r.Intn(2), Dummy: r.Intn(2), Color: []string{"", "#ff0000"}[r.Intn(2)]}
			if r.Intn(3) == 0 {
				b.UpVector = va(r)
			}
			if r.Intn(3) == 0 {
				b.Rotate = va(r)
			}
			if r.Intn(3) == 0 {
				b.IK = &mqo.BoneIK{ChainCount: r.Intn(5), Name: mqoName(r), TipName: mqoName(r)}
			}
			for oi, o := range d.Objects {
				id := o.UID
				if id == 0 {
					id = oi + 1
				}
				for vi := range o.Vertexes {
					if r.Intn(3) == 0 {
						b.SetVertexWeight(id, vi+1, rweight(r)*100)
					}
				}
			}
			bp.AddBone(b)
		}
		for k := r.Intn(3); k > 0; k-- {
			bp.PoseSet.BonePoses = append(bp.PoseSet.BonePoses, &mqo.BonePose{ID: k, Name: mqoName(r), MvX: rf(r), MvY: rf(r), MvZ: rf(r), RotB: rf(r), RotH: rf(r), RotP: rf(r), ScB: rf(r), ScH: rf(r), ScP: rf(r)})
		}
	}
	if r.Intn(2) == 0 {
		mp := mqo.GetMorphPlugin(d)
		for k := r.Intn(3); k > 0; k-- {
			t := &mqo.MorphTargetList{Base: mqoName(r)}
			for j := r.Intn(4); j > 0; j-- {
				t.Target = append(t.Target, &mqo.MorphTarget{Name: mqoName(r), Param: r.Intn(100)})
			}
			mp.MorphSet.Targets = append(mp.MorphSet.Targets, t)
		}
	}
	if r.Intn(2) == 0 {
		pp := mqo.GetPhysicsPlugin(d)
		for k := r.Intn(4); k > 0; k-- {
			b := &mqo.PhysicsBody{Mass: rf(r), Kinematic: r.Intn(2) == 0, CollisionGroup: r.Intn(16), CollisionMask: r.Intn(65536), Restitution: rf(r), Friction: rf(r),
				LinearDamping: rf(r), AngularDamping: rf(r), Name: mqoName(r), TargetBoneID: r.Intn(5), TargetObjID: r.Intn(5)}
			for j := r.Intn(3); j > 0; j-- {
				b.Shapes = append(b.Shapes, &mqo.PhysicsShape{Type: []string{"BOX", "SPHERE", "CAPSULE", "CYLINDER", "MESH"}[r.Intn(5)], Size: vx(r), Position: vx(r), Rotation: vx(r)})
			}
			pp.Bodies = append(pp.Bodies, b)
		}
		for k := r.Intn(3); k > 0; k-- {
			pp.Constraints = append(pp.Constraints, &mqo.PhysicsJointConstraint{Type: "SPRING", Body1: r.Intn(4), Body2: r.Intn(4), Name: mqoName(r), Position: vx(r), Rotation: vx(r), LinerSpring: vx(r), AngulerSpring: vx(r)})
		}
	}
}

// mqoDiffer compares documents up to the decimal places of the text format.
func mqoDiffer() *differ {
	return &differ{
		skip: map[string]bool{"XMLName": true, "BonePlugin.Obj": true, "Plugin.Name": true, "BonePlugin.Name": true, "MorphPlugin.Name": true, "PhysicsPlugin.Name": true,
			"Extra": true, "InternalTransform": true, "RotationOffset": true, "Plugins": true},
		tolFor: map[string]float64{
			"Material.Color": 5.1e-4, "Material.Diffuse": 5.1e-4, "Material.Ambient": 5.1e-4, "Material.Emission": 5.1e-4, "Material.Specular": 5.1e-4,
			"Material.Power": 5.1e-3, "Material.EmissionColor": 5.1e-4, "Scene.CameraRot": 5.1e-5, "Scene.Zoom2": 5.1e-5, "Scene.AmbientLight": 5.1e-4,
			"Object.Color": 5.1e-4, "Object.MirrorDis": 5.1e-7,
		},
	}
}

func pluginOf(d *mqo.Document, t reflect.Type) mqo.Plugin {
	for _, p := range d.Plugins {
		if reflect.TypeOf(p) == t {
			return p
		}
	}
	return nil
}

// diffMQO compares two documents including their plugins (by kind).
func diffMQO(want, got *mqo.Document) []string {
	d := mqoDiffer()
	d.walkAny(want, got)
	for _, t := range []reflect.Type{reflect.TypeOf(&mqo.BonePlugin{}), reflect.TypeOf(&mqo.MorphPlugin{}), reflect.TypeOf(&mqo.PhysicsPlugin{})} {
		a, b := pluginOf(want, t), pluginOf(got, t)
		if a == nil {
			a = reflect.New(t.Elem()).Interface().(mqo.Plugin)
		}
		if b == nil {
			b = reflect.New(t.Elem()).Interface().(mqo.Plugin)
		}
		d.walk(t.Elem().Name(), reflect.ValueOf(a), reflect.ValueOf(b))
	}
	return d.out
}
