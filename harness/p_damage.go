package main

// Damaged inputs (P32): whatever is wrong with a file, the tool converts what
// it can or reports an error; it never crashes and always ends.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"image"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/binzume/modelconv/mqo"
)

func init() {
	register(&Prop{
		ID:          "P32",
		Rule:        "valid files of every format from the independent encoders are damaged (cut off, bytes flipped and overwritten, ranges removed and repeated; in text formats numbers, tokens, lines and blocks; in glTF and configuration files JSON values) and converted by the real tool under CPU and memory limits to random formats; crashes, signals, diverging runs and changed inputs are violations",
		Assumptions: []string{"20 s of CPU time and 8 GB of address space are far more than these inputs of a few kB need"},
		Require:     []string{"damaged_pmx", "damaged_pmd", "damaged_vmd", "damaged_mqo", "damaged_mqx", "damaged_mqoz", "damaged_fbx", "damaged_fbxtext", "damaged_glb", "damaged_gltf", "damaged_vrm", "damaged_config", "damaged_image", "wild_references", "rejected", "accepted", "truncated_rejected"},
		Cases: func(r *Run) {
			for _, k := range damageKinds {
				k := k
				r.Repeat(k, r.N(400, 6000), func(c *C) { damageCase(c, k) })
			}
		},
	})
}

var damageKinds = []string{"pmx", "pmd", "vmd", "mqo", "mqx", "mqoz", "fbx", "fbxtext", "glb", "gltf", "vrm", "config", "image"}

func damageBinary(r *rand.Rand, data []byte) ([]byte, bool) {
	d := append([]byte(nil), data...)
	if len(d) == 0 {
		return d, false
	}
	if r.Intn(4) == 0 {
		return d[:r.Intn(len(d))], true
	}
	for i := r.Intn(3) + 1; i > 0 && len(d) > 0; i-- {
		p := r.Intn(len(d))
		switch r.Intn(6) {
		case 0:
			d[p] ^= 1 << uint(r.Intn(8))
		case 1:
			d[p] = byte(r.Intn(256))
		case 2:
			v := []uint32{0, 1, 0xff, 0x7f, 0x80, 0xffff, 0x7fff, 0x8000, 0xffffffff, 0x7fffffff, 0x80000000, 0x7fc00000, 0x10000, 1000}[r.Intn(14)]
			var b [4]byte
			binary.LittleEndian.PutUint32(b[:], v)
			copy(d[p:], b[:[]int{1, 2, 4, 4}[r.Intn(4)]])
		case 3:
			n := r.Intn(16) + 1
			if p+n < len(d) {
				d = append(d[:p:p], d[p+n:]...)
			}
		case 4:
			n := r.Intn(16) + 1
			if p+n < len(d) {
				d = append(append(append([]byte(nil), d[:p+n]...), d[p:p+n]...), d[p+n:]...)
			}
		case 5: // copy something else over it
			q := r.Intn(len(d))
			copy(d[p:], append([]byte(nil), d[q:min(len(d), q+1+r.Intn(8))]...))
		}
	}
	return d, false
}

var numberRe = regexp.MustCompile(`-?[0-9]+(\.[0-9]+)?(e[-+]?[0-9]+)?`)
var tokenRe = regexp.MustCompile(`[A-Za-z_0-9.+-]+|[^\sA-Za-z_0-9]`)

var oddNumbers = []string{"-1", "0", "1", "2", "7", "100", "65536", "99999999", "-2147483648", "2147483647", "4294967295", "9223372036854775807", "99999999999999999999999", "1e30", "1e400", "-1e-40", "NaN", "1.5", "", "x", `"1"`, "- 1", "-"}

func mangleText(r *rand.Rand, data []byte) ([]byte, bool) {
	d := data
	if r.Intn(6) == 0 {
		return d[:r.Intn(len(d)+1)], true
	}
	cut := func(a, b int, ins string) {
		d = append(append(append([]byte(nil), d[:a]...), ins...), d[b:]...)
	}
	for i := r.Intn(3) + 1; i > 0; i-- {
		switch k := r.Intn(10); {
		case k < 4:
			if m := numberRe.FindAllIndex(d, -1); len(m) > 0 {
				x := m[r.Intn(len(m))]
				ins := oddNumbers[r.Intn(len(oddNumbers))]
				if r.Intn(3) == 0 {
					y := m[r.Intn(len(m))]
					ins = string(d[y[0]:y[1]])
				}
				cut(x[0], x[1], ins)
			}
		case k < 6:
			if m := tokenRe.FindAllIndex(d, -1); len(m) > 0 {
				x := m[r.Intn(len(m))]
				switch r.Intn(4) {
				case 0:
					cut(x[0], x[1], "")
				case 1:
					cut(x[0], x[0], string(d[x[0]:x[1]])+" ")
				case 2:
					y := m[r.Intn(len(m))]
					cut(x[0], x[1], string(d[y[0]:y[1]]))
				case 3:
					cut(x[0], x[1], []string{"{", "}", "(", ")", "\"", ",", ":", "*", "-", "\n", "\x00", "\xff"}[r.Intn(12)])
				}
			}
		case k < 9:
			l := bytes.SplitAfter(d, []byte("\n"))
			a := r.Intn(len(l))
			b := min(len(l), a+1+r.Intn(4))
			out := append([][]byte(nil), l[:a]...)
			switch r.Intn(3) {
			case 0: // remove lines
				out = append(out, l[b:]...)
			case 1: // repeat lines
				out = append(append(out, l[a:b]...), l[a:]...)
			case 2: // move lines
				out = append(out, l[b:]...)
				p := r.Intn(len(out) + 1)
				out = append(append(append([][]byte(nil), out[:p]...), l[a:b]...), out[p:]...)
			}
			d = bytes.Join(out, nil)
		default:
			d, _ = damageBinary(r, d)
			if len(d) == 0 {
				d = []byte(" ")
			}
		}
	}
	return d, false
}

// damageJSON changes values of a JSON document.
func damageJSON(r *rand.Rand, data []byte) []byte {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var v interface{}
	if dec.Decode(&v) != nil {
		return data
	}
	for i := r.Intn(3) + 1; i > 0; i-- {
		type slot struct {
			get func() interface{}
			set func(interface{})
			del func()
		}
		var slots []slot
		var walk func(x interface{}, name string)
		walk = func(x interface{}, name string) {
			switch x := x.(type) {
			case map[string]interface{}:
				var ks []string
				for k := range x {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					k := k
					s := slot{func() interface{} { return x[k] }, func(v interface{}) { x[k] = v }, func() { delete(x, k) }}
					slots = append(slots, s)
					switch x[k].(type) {
					case json.Number: // indices and counts are the interesting ones
						slots = append(slots, s, s)
					}
					walk(x[k], k)
				}
			case []interface{}:
				n := len(x)
				for k := 0; k < n; k++ {
					k := k
					if n > 16 && r.Intn(8) > 0 {
						continue
					}
					s := slot{func() interface{} { return x[k] }, func(v interface{}) { x[k] = v }, func() { x[k] = nil }}
					slots = append(slots, s)
					walk(x[k], name)
				}
			}
		}
		walk(v, "")
		if len(slots) == 0 {
			break
		}
		s := slots[r.Intn(len(slots))]
		switch k := r.Intn(8); {
		case k == 0:
			s.del()
		case k == 1:
			s.set([]interface{}{nil, json.Number("0"), "x", true, []interface{}{}, map[string]interface{}{}, []interface{}{nil}, []interface{}{json.Number("-1")}}[r.Intn(8)])
		case k == 2:
			s.set(slots[r.Intn(len(slots))].get())
			if _, err := json.Marshal(v); err != nil { // a cycle
				s.set(nil)
			}
		default:
			if _, ok := s.get().(json.Number); !ok {
				for n := 0; n < 20 && !ok; n++ {
					s = slots[r.Intn(len(slots))]
					_, ok = s.get().(json.Number)
				}
				if !ok {
					break
				}
			}
			s.set(json.Number([]string{"-1", "0", "1", "2", "3", "5", "100", "65535", "5120", "5126", "4294967295", "4294967296", "1e10", "1.5", "2147483647"}[r.Intn(15)]))
		}
	}
	b, err := json.Marshal(v)
	if err != nil {
		return data
	}
	return b
}

// claimedPixels is the size a (damaged) image claims to have; decoders
// allocate that much, so huge claims are left out.
func claimedPixels(kind string, d []byte) float64 {
	switch kind {
	case "bmp", "corrupt":
		if len(d) >= 26 {
			return math.Abs(float64(int32(binary.LittleEndian.Uint32(d[18:])))) * math.Abs(float64(int32(binary.LittleEndian.Uint32(d[22:]))))
		}
	case "tga":
		if len(d) >= 16 {
			return float64(binary.LittleEndian.Uint16(d[12:])) * float64(binary.LittleEndian.Uint16(d[14:]))
		}
	default:
		if cf, _, err := image.DecodeConfig(bytes.NewReader(d)); err == nil {
			return float64(cf.Width) * float64(cf.Height)
		}
	}
	return 0
}

// damageGLB damages the JSON or the binary part of a GLB file.
func damageGLB(r *rand.Rand, data []byte) ([]byte, bool) {
	if len(data) < 20 || r.Intn(4) == 0 {
		return damageBinary(r, data)
	}
	n := int(binary.LittleEndian.Uint32(data[12:]))
	js := damageJSON(r, data[20:20+n])
	for len(js)%4 != 0 {
		js = append(js, ' ')
	}
	out := append([]byte(nil), data[:20]...)
	out = append(append(out, js...), data[20+n:]...)
	binary.LittleEndian.PutUint32(out[12:], uint32(len(js)))
	binary.LittleEndian.PutUint32(out[8:], uint32(len(out)))
	return out, false
}

// wildPMX encodes a model whose references point anywhere: missing or
// repeated parents, cycles, wrong targets.
func wildPMX(c *C) []byte {
	r := c.R
	d := genModel(r, false)
	for k := r.Intn(6) + 1; k > 0; k-- {
		wild := func(n int) int {
			if r.Intn(3) == 0 {
				return []int{-1, 0, n, n + 1, 100}[r.Intn(5)]
			}
			return r.Intn(n + 1)
		}
		nb, nm := len(d.Bones), len(d.Morphs)
		switch r.Intn(10) {
		case 0, 1, 2:
			for _, b := range d.Bones {
				if r.Intn(2) == 0 {
					b.ParentID = wild(nb)
				}
			}
		case 3:
			for _, b := range d.Bones {
				b.TailID, b.InheritParentID = wild(nb), wild(nb)
				b.Flags |= uint16(r.Intn(2)) * 256
			}
		case 4:
			for _, b := range d.Bones {
				if b.Flags&32 != 0 {
					b.IK.TargetID = wild(nb)
					for _, l := range b.IK.Links {
						l.TargetID = wild(nb)
					}
				}
			}
		case 5:
			for _, m := range d.Materials {
				m.TextureID, m.EnvID = wild(len(d.Textures)), wild(len(d.Textures))
			}
		case 6:
			for _, v := range d.Vertexes {
				for i := range v.Bones {
					v.Bones[i] = wild(nb)
				}
			}
		case 7:
			for _, m := range d.Morphs {
				for _, g := range m.Group {
					g.Target = wild(nm)
				}
				for _, g := range m.Material {
					g.Target = wild(len(d.Materials))
				}
			}
		case 8:
			for _, b := range d.Bodies {
				b.Bone = wild(nb)
			}
		case 9:
			for _, j := range d.Joints {
				j.Body1, j.Body2 = wild(len(d.Bodies)), wild(len(d.Bodies))
			}
		}
	}
	ext := 0
	if len(d.Vertexes) > 0 {
		ext = len(d.Vertexes[0].ExtUVs)
	}
	c.Obs("wild_references")
	return encPMX(d, pmxOpts{sz: randSizes(r, d), extUV: ext, utf16: r.Intn(2) == 0}, r)
}

func damageCase(c *C, kind string) {
	r := c.R
	dir := c.Dir()
	in := ""
	args := []string{}
	trunc := false
	rewrite := func(p string, f func([]byte) ([]byte, bool)) {
		b, err := os.ReadFile(p)
		must(err)
		n, t := f(b)
		trunc = t && len(n) < len(b)
		must(os.WriteFile(p, n, 0644))
	}
	c.relative = true
	bin := func(b []byte) ([]byte, bool) { return damageBinary(r, b) }
	text := func(b []byte) ([]byte, bool) { return mangleText(r, b) }
	out := ""
	switch kind {
	case "pmx", "pmd":
		in = anyInput(c, dir, kind, "in")
		if kind == "pmx" && r.Intn(2) == 0 {
			must(os.WriteFile(in, wildPMX(c), 0644))
		} else {
			rewrite(in, bin)
		}
		out = outputsFor(kind)[r.Intn(6)]
	case "vmd":
		d, bones, morphs := genRig(c)
		in = filepath.Join(dir, "in.mqo")
		must(mqo.Save(d, in))
		p := filepath.Join(dir, "m.vmd")
		must(os.WriteFile(p, encVMD(r, genMotion(r, bones, morphs), r.Intn(2) == 0), 0644))
		rewrite(p, bin)
		args = append(args, "m.vmd")
		out = []string{"glb", "gltf"}[r.Intn(2)]
	case "mqo":
		in = anyInput(c, dir, kind, "in")
		rewrite(in, text)
		out = outputsFor(kind)[r.Intn(6)]
	case "mqx":
		in = anyInput(c, dir, "mqo", "in")
		p := filepath.Join(dir, "in.mqx")
		if _, err := os.Stat(p); err != nil {
			must(os.WriteFile(p, []byte("<MetasequoiaDocument></MetasequoiaDocument>"), 0644))
		}
		rewrite(p, text)
		out = outputsFor("mqo")[r.Intn(6)]
	case "mqoz":
		in = anyInput(c, dir, kind, "in")
		rewrite(in, bin)
		out = outputsFor(kind)[r.Intn(6)]
	case "fbx", "fbxtext":
		in = filepath.Join(dir, "in.fbx")
		s := genFBX(c, r.Intn(2) == 0, r.Intn(2) == 0)
		if kind == "fbx" {
			must(os.WriteFile(in, encFBX(r, s.top, s.version), 0644))
			rewrite(in, bin)
		} else {
			must(os.WriteFile(in, encFBXText(r, s.top, s.version), 0644))
			rewrite(in, text)
		}
		out = outputsFor("fbx")[r.Intn(7)]
	case "glb", "vrm":
		in = anyInput(c, dir, kind, "in")
		rewrite(in, func(b []byte) ([]byte, bool) { return damageGLB(r, b) })
		out = outputsFor(kind)[r.Intn(5)]
	case "gltf":
		in = anyInput(c, dir, kind, "in")
		rewrite(in, func(b []byte) ([]byte, bool) {
			if r.Intn(4) == 0 {
				return mangleText(r, b)
			}
			return damageJSON(r, b), false
		})
		out = outputsFor(kind)[r.Intn(5)]
	case "image":
		in = filepath.Join(dir, "in.mqo")
		d, _, _ := genCliDoc(c)
		files := decorateMaterials(c, d, dir)
		must(mqo.Save(d, in))
		var names []string
		for n, f := range files {
			if f.bytes != nil {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			rewrite(files[n].path, func(b []byte) ([]byte, bool) {
				for i := 0; i < 10; i++ {
					if d, t := damageBinary(r, b); claimedPixels(files[n].kind, d) < 1e6 {
						return d, t
					}
					c.Obs("huge_image_skipped")
				}
				return b, false
			})
		}
		if r.Intn(2) == 0 {
			args = append(args, "-texReCompress")
		}
		if r.Intn(2) == 0 {
			args = append(args, "-texResolutionLimit", "16")
		}
		if r.Intn(2) == 0 {
			args = append(args, "-texBytesThreshold", "100", "-texResizeScale", "0.5")
		}
		out = []string{"glb", "gltf", "vrm"}[r.Intn(3)]
	case "config":
		in = anyInput(c, dir, []string{"mqo", "glb", "vrm", "pmx", "pmd"}[r.Intn(5)], "in")
		p := filepath.Join(dir, "conf.json")
		must(os.WriteFile(p, []byte(damageConfig), 0644))
		rewrite(p, func(b []byte) ([]byte, bool) {
			if r.Intn(4) == 0 {
				return mangleText(r, b)
			}
			return damageJSON(r, b), false
		})
		args = append(args, "-vrmconfig", "conf.json")
		out = "vrm"
	}
	for _, o := range []string{"-physics", "-rot180", "-reuseGeometry", "-gltfExportLight", "-texReCompress", "-ignoreHierarchy", "-vrmExportAllMorph", "-detectAlphaTexture"} {
		if r.Intn(6) == 0 {
			args = append([]string{o}, args...)
		}
	}
	if kind == "vmd" { // the motion follows the model
		args = append(args[:len(args)-1], "in.mqo", "m.vmd")
	} else {
		args = append(args, filepath.Base(in))
	}
	c.Obs("damaged_" + kind)
	before := treeHashes(dir)
	res := runCLI(c, dir, append(args, "out."+out)...)
	if res.code == 0 {
		c.Obs("accepted")
	} else {
		c.Obs("rejected")
		if strings.TrimSpace(res.stderr) == "" {
			c.Failf("exit code %d without a message", res.code)
		}
	}
	if trunc && (kind == "pmx" || kind == "glb" || kind == "vrm") {
		// these formats say how much is to follow
		if res.code == 0 {
			c.Failf("a truncated %s file is accepted without an error", kind)
		}
		c.Obs("truncated_rejected")
	}
	after := treeHashes(dir)
	for n, h := range before {
		if after[n] != h {
			c.Failf("%s changed", n)
		}
	}
	c.Sig("%s %s %d %s", kind, out, res.code, errClass(res.stderr))
}

var digitsRe = regexp.MustCompile(`[0-9]+|"[^"]*"`)

// errClass abstracts a message to count distinct behaviours.
func errClass(s string) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return digitsRe.ReplaceAllString(l[len(l)-1], "#")
}

const damageConfig = `{"preset":"mmd","meta":{"title":"t","author":"a"},"boneMappings":[{"bone":"hips","nodeNames":["センター","n0"]},{"bone":"head","nodeNames":["head","n1"]}],
"morphMappings":[{"name":"a","nodeName":"n0","targetName":"m0"},{"name":"joy","targetName":"m1"}],"animationBoneGroups":[{"comment":"x","stiffiness":0.5,"gravityPower":0.1,"gravityDir":{"x":0,"y":-1,"z":0},"dragForce":0.4,"center":-1,"hitRadius":0.02,"nodeNames":["n*","b1"],"colliderGroups":[0,1],"colliderNodes":["n1"]}],
"colliderGroups":[{"nodeName":"n1","colliders":[{"offset":{"x":1,"y":2,"z":3},"radius":1}]}],
"materialSettings":{"*":{"alphaMode":"blend","alpha":0.5,"forceUnlit":true},"mat1":{"alphaMode":"mask"}},"exportAllMorph":true,"firstPerson":{"firstPersonBone":1}}`
