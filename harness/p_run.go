package main

// Runs of the command line tool: names, formats, exit codes and files (P29),
// determinism (P30) and write faults (P31).

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/vrm"
)

var inputKinds = []string{"mqo", "mqoz", "pmx", "pmd", "glb", "gltf", "vrm", "fbx", "unity", "unitypackage"}

func init() {
	register(&Prop{
		ID:          "P29",
		Rule:        "for every input format the real tool converts seeded models to every output format with the output named explicitly, by default, by -format, with upper-case extensions and with an unrelated extension; all ways give the same bytes, the right format (read back by independent readers) and only the files of the output; inputs stay unchanged; in-place conversion equals the other; unusable inputs and outputs give an error message and a non-zero exit status",
		Assumptions: []string{"a .gltf file is converted to .gltf only in its own directory (its images stay where they are)"},
		Require:     []string{"explicit", "default_name", "format_name", "upper_input", "upper_package", "upper_output", "other_ext", "in_place", "vmd", "animated", "error", "in_mqo", "in_mqoz", "in_pmx", "in_pmd", "in_glb", "in_gltf", "in_vrm", "in_fbx", "in_unity", "in_unitypackage", "out_mqo", "out_mqoz", "out_pmx", "out_glb", "out_gltf", "out_vrm", "out_fbx"},
		Cases: func(r *Run) {
			r.Repeat("names", r.N(800, 8000), runNamesCase)
			r.Repeat("inplace", r.N(60, 600), runInPlaceCase)
			r.Repeat("vmd", r.N(60, 600), runVmdCase)
			r.Repeat("error", r.N(250, 2500), runErrorCase)
		},
	})
	register(&Prop{
		ID:      "P30",
		Rule:    "every input format is converted several times by separate processes with the same options (randomised map iteration and scheduling); all files written are compared byte by byte",
		Require: []string{"same", "in_mqo", "in_mqoz", "in_pmx", "in_pmd", "in_glb", "in_gltf", "in_vrm", "in_fbx", "in_unity", "in_unitypackage", "out_mqo", "out_mqoz", "out_pmx", "out_glb", "out_gltf", "out_vrm", "out_fbx", "options"},
		Cases: func(r *Run) {
			r.Repeat("repeat", r.N(1000, 12000), runRepeatCase)
		},
	})
	register(&Prop{
		ID:      "P31",
		Rule:    "writers are given streams that fail after a random number of bytes, and the real tool writes each of its output files (the MQX and .bin files too) to a full device; every failure must be reported",
		Require: []string{"stream_fault", "full_device", "cannot_create", "full_second_file", "fault_pmx", "fault_mqo", "fault_vrm", "no_fault", "out_mqo", "out_mqoz", "out_pmx", "out_glb", "out_gltf", "out_vrm"},
		Cases: func(r *Run) {
			r.Repeat("stream", r.N(500, 8000), writeFaultCase)
			r.Repeat("full", r.N(200, 2000), fullDeviceCase)
		},
	})
}

// anyInput writes a model of the given format to dir and returns its path.
func anyInput(c *C, dir, kind, base string) string {
	r := c.R
	must(os.MkdirAll(dir, 0755))
	p := filepath.Join(dir, base+"."+kind)
	c.Obs("in_" + kind)
	switch kind {
	case "mqo", "mqoz":
		d, _, _ := genCliDoc(c)
		if r.Intn(2) == 0 {
			decorateMaterials(c, d, dir)
		}
		if r.Intn(2) == 0 {
			genVrmPhysics(c, d)
		}
		if r.Intn(2) == 0 { // materials with several parameter tables
			for _, m := range d.Materials {
				if m.Ex2 == nil {
					m.Ex2 = mqo.NewMaterialEx2("x")
				}
				for k, n := 0, r.Intn(5); k < n; k++ {
					m.Ex2.ShaderMappingParams[fmt.Sprintf("Table%d", k)] = genEx2Params(r, r.Intn(4))
				}
			}
			c.Obs("shader_tables")
		}
		must(mqo.Save(d, p))
	case "pmx":
		must(os.WriteFile(p, anyPMX(c), 0644))
	case "pmd":
		m := genPMD(r)
		for i := range m.bones { // no cycles
			m.bones[i].parent = r.Intn(i+1) - 1
			if m.bones[i].parent < 0 {
				m.bones[i].parent = 65535
			}
		}
		must(os.WriteFile(p, encPMD(m, r), 0644))
	case "glb", "gltf":
		g := newGGen(c)
		g.Anim, g.Skins, g.Morphs, g.Cameras, g.SharedIBM, g.ExtImages = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, true, true
		g.build(1+r.Intn(8), r.Intn(4), r.Intn(4))
		q := g.write(dir, "in", kind == "glb") // the URIs inside name other files
		must(os.Rename(q, p))
	case "vrm":
		g := vrmRig(c)
		q := g.write(dir, "in", true)
		must(os.Rename(q, p))
	case "fbx":
		s := genFBX(c, r.Intn(2) == 0, r.Intn(2) == 0)
		data, _ := encodeAny(c, s.top, s.version)
		must(os.WriteFile(p, data, 0644))
	case "unity":
		return genUnity(c, true).writeProject(filepath.Join(dir, "proj"))
	case "unitypackage":
		u := genUnity(c, true)
		must(os.WriteFile(p, gz(makeTar(u.packageEntries())), 0644))
		return p + "#" + u.scene.path
	}
	return p
}

func anyPMX(c *C) []byte {
	r := c.R
	doc := genModel(r, false)
	for i, b := range doc.Bones { // no cycles
		b.ParentID = r.Intn(i+1) - 1
	}
	ext := 0
	if len(doc.Vertexes) > 0 {
		ext = len(doc.Vertexes[0].ExtUVs)
	}
	return encPMX(doc, pmxOpts{sz: randSizes(r, doc), extUV: ext, utf16: r.Intn(2) == 0}, r)
}

// outputsFor lists the formats the documentation promises for an input.
func outputsFor(kind string) []string {
	switch kind {
	case "glb", "gltf", "vrm":
		return []string{"glb", "gltf", "vrm", "mqo", "mqoz"}
	case "fbx":
		return []string{"pmx", "mqo", "mqoz", "glb", "gltf", "vrm", "fbx"}
	}
	return []string{"pmx", "mqo", "mqoz", "glb", "gltf", "vrm"}
}

func readTree(dir string) map[string][]byte {
	out := map[string][]byte{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			must(err)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = b
		}
		return nil
	})
	return out
}

func copyTree(from, to string) {
	must(os.MkdirAll(to, 0755))
	for n, b := range readTree(from) {
		p := filepath.Join(to, n)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, b, 0644))
	}
}

// checkFormat reads a file with the reader of the format it should have.
func checkFormat(c *C, path, format string) {
	data, err := os.ReadFile(path)
	if err != nil {
		c.Fatalf("no output: %v", err)
	}
	magic := map[string]string{"mqo": "Metasequoia Document", "mqoz": "PK\x03\x04", "pmx": "PMX ", "glb": "glTF", "vrm": "glTF", "gltf": "{", "fbx": "; FBX 7"}[format]
	if !bytes.HasPrefix(data, []byte(magic)) {
		c.Fatalf("%s is no %s file: %.40q", filepath.Base(path), format, data)
	}
	switch format {
	case "pmx":
		if _, err := decPMX(data); err != nil {
			c.Fatalf("%s: %v", filepath.Base(path), err)
		}
	case "fbx":
		if _, err := parseFBXText(data); err != nil {
			c.Fatalf("%s: %v", filepath.Base(path), err)
		}
	case "mqoz", "mqo":
		q := path
		if filepath.Ext(path) != "."+format {
			q = filepath.Join(filepath.Dir(path), "check."+format)
			must(os.WriteFile(q, data, 0644))
			defer os.Remove(q)
		}
		if _, err := mqo.Load(q); err != nil {
			c.Fatalf("%s: %v", filepath.Base(path), err)
		}
	case "glb", "vrm", "gltf":
		q := path
		if ext := filepath.Ext(path); ext != "."+format {
			q = filepath.Join(filepath.Dir(path), "check."+format)
			must(os.WriteFile(q, data, 0644))
			defer os.Remove(q)
		}
		g, err := loadGltfFile(q)
		if err != nil {
			c.Fatalf("%s: %v", filepath.Base(path), err)
		}
		if format != "gltf" && (len(g.Buffers) > 1 || len(g.Buffers) == 1 && g.Buffers[0].URI != "") {
			c.Failf("%s is not a single file", filepath.Base(path))
		}
		if format == "vrm" {
			if _, ok := g.Extensions["VRM"]; !ok {
				c.Failf("%s has no VRM extension", filepath.Base(path))
			}
		}
	}
}

// sameFiles compares the files of two output directories; sub replaces text
// that legitimately differs.
func sameFiles(c *C, what string, a, b map[string][]byte, sub [2]string) {
	var names []string
	for n := range a {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		m := n
		if n == sub[0] {
			m = sub[1]
		}
		x, ok := b[m]
		if !ok {
			c.Failf("%s: %s is missing (%d files)", what, m, len(b))
			continue
		}
		if sub[0] != "" && !strings.HasSuffix(n, "glb") && !strings.HasSuffix(n, "vrm") {
			x = bytes.ReplaceAll(x, []byte(sub[1]), []byte(sub[0]))
		}
		if strings.HasSuffix(n, ".mqoz") && sub[0] != "" { // the parts mention the name of the file
			za, zx := unzipAll(c, a[n]), unzipAll(c, x)
			for k, v := range zx {
				zx[k] = bytes.ReplaceAll(v, []byte(sub[1]), []byte(sub[0]))
			}
			sameFiles(c, what+": "+n, za, zx, [2]string{})
			continue
		}
		if !bytes.Equal(a[n], x) {
			i := 0
			for i < len(x) && i < len(a[n]) && x[i] == a[n][i] {
				i++
			}
			lo := i - 40
			if lo < 0 {
				lo = 0
			}
			cut := func(s []byte) []byte {
				if i+40 < len(s) {
					return s[lo : i+40]
				}
				return s[lo:]
			}
			c.Fatalf("%s: %s differs at byte %d of %d/%d: %q / %q", what, n, i, len(a[n]), len(x), cut(a[n]), cut(x))
		}
	}
	if len(a) != len(b) {
		for n := range b {
			if _, ok := a[n]; !ok && n != sub[1] {
				c.Failf("%s: additional file %s", what, n)
			}
		}
	}
}

func unzipAll(c *C, data []byte) map[string][]byte {
	out := map[string][]byte{}
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		c.Fatalf("not a zip file: %v", err)
	}
	for _, f := range zr.File {
		rc, err := f.Open()
		if err != nil {
			c.Fatalf("%s: %v", f.Name, err)
		}
		b, err := io.ReadAll(rc)
		if err != nil {
			c.Fatalf("%s: %v", f.Name, err)
		}
		out[f.Name] = b
	}
	return out
}

func runNamesCase(c *C) {
	r := c.R
	kind := inputKinds[r.Intn(len(inputKinds))]
	outs := outputsFor(kind)
	format := outs[r.Intn(len(outs))]
	c.Obs("out_" + format)
	c.Sig("%s>%s", kind, format)
	dir := c.Dir()
	base := []string{"in", "モデル", "my model", "a.b", "100%"}[r.Intn(5)]
	src := filepath.Join(dir, "src")
	in := anyInput(c, src, kind, base)
	unity := kind == "unity" || kind == "unitypackage"
	before := readTree(src)
	gltfToGltf := kind == "gltf" && format == "gltf"

	// explicit name
	a := filepath.Join(dir, "A")
	if gltfToGltf {
		if base == "in" {
			base = "in2"
		}
		a = filepath.Join(dir, "A")
		copyTree(src, a)
		in = filepath.Join(a, filepath.Base(in))
	} else {
		must(os.MkdirAll(a, 0755))
	}
	outBase := base
	if gltfToGltf {
		outBase = "out"
	}
	out := filepath.Join(a, outBase+"."+format)
	mustCLI(c, dir, in, out)
	checkFormat(c, out, format)
	c.Obs("explicit")
	after := readTree(src)
	for n, b := range before {
		if !bytes.Equal(after[n], b) {
			c.Failf("input file %s changed", n)
		}
	}
	for n := range after {
		if _, ok := before[n]; !ok && !strings.Contains(n, "saved_textures") {
			c.Failf("file %s appeared beside the input", n)
		}
	}
	if gltfToGltf {
		return
	}
	ref := readTree(a)
	for n := range ref {
		ok := n == base+"."+format || (format == "mqo" && n == base+".mqx") || (format == "gltf" && strings.HasPrefix(n, base) && strings.HasSuffix(n, ".bin"))
		if !ok {
			c.Failf("unexpected output file %s", n)
		}
	}
	if unity { // textures are saved in the project
		if kind == "unitypackage" {
			file := strings.SplitN(in, "#", 2)
			up := strings.TrimSuffix(file[0], filepath.Ext(file[0])) + strings.ToUpper(filepath.Ext(file[0]))
			must(os.Rename(file[0], up))
			if len(file) > 1 {
				up += "#" + file[1]
			}
			o := filepath.Join(dir, "upper."+format)
			mustCLI(c, dir, up, o)
			checkFormat(c, o, format)
			c.Obs("upper_package")
		}
		return
	}
	def := "mqo"
	if kind == "mqo" || kind == "mqoz" {
		def = "glb"
	}

	// named after the input
	b := filepath.Join(dir, "B")
	copyTree(src, b)
	name := filepath.Base(in)
	switch k := r.Intn(3); {
	case k == 0 && "."+format != filepath.Ext(in) && !(kind == "mqo" && format == "mqoz"):
		// upper-case input extension
		up := base + strings.ToUpper(filepath.Ext(in))
		must(os.Rename(filepath.Join(b, name), filepath.Join(b, up)))
		name = up
		c.Obs("upper_input")
		fallthrough
	default:
		if "."+format == filepath.Ext(in) {
			break
		}
		pre := readTree(b)
		args := []string{}
		if format != def || r.Intn(2) == 0 {
			args = append(args, "-format", format)
			c.Obs("format_name")
		} else {
			c.Obs("default_name")
		}
		mustCLI(c, b, append(args, name)...)
		got := map[string][]byte{}
		for n, x := range readTree(b) {
			if y, ok := pre[n]; !ok || !bytes.Equal(x, y) {
				got[n] = x
			}
		}
		sameFilesLoose(c, "default name", ref, got, pre)
	}

	// other ways to name the output
	d := filepath.Join(dir, "D")
	must(os.MkdirAll(d, 0755))
	if r.Intn(2) == 0 {
		o := base + "." + strings.ToUpper(format)
		mustCLI(c, dir, in, filepath.Join(d, o))
		checkFormat(c, filepath.Join(d, o), format)
		sameFiles(c, "upper-case output", ref, readTree(d), [2]string{base + "." + format, o})
		c.Obs("upper_output")
	} else {
		o := base + ".dat"
		mustCLI(c, dir, "-format", format, in, filepath.Join(d, o))
		checkFormat(c, filepath.Join(d, o), format)
		sameFiles(c, "-format", ref, readTree(d), [2]string{base + "." + format, o})
		c.Obs("other_ext")
	}
}

// sameFilesLoose: every file of ref is among got, or was in the directory before.
func sameFilesLoose(c *C, what string, ref, got, pre map[string][]byte) {
	m := map[string][]byte{}
	for n, b := range got {
		m[n] = b
	}
	for n := range ref {
		if _, ok := m[n]; !ok {
			if b, ok := pre[n]; ok {
				m[n] = b
			}
		}
	}
	sameFiles(c, what, ref, m, [2]string{})
}

func runInPlaceCase(c *C) {
	r := c.R
	kind := []string{"glb", "gltf", "mqo", "mqoz", "fbx", "pmx"}[r.Intn(6)]
	dir := c.Dir()
	a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
	in := anyInput(c, a, kind, "in")
	copyTree(a, b)
	name := filepath.Base(in)
	var args []string
	if kind != "fbx" {
		args = append(args, "-scale", []string{"2", "1", "0.5"}[r.Intn(3)])
	}
	mustCLI(c, a, append(append([]string(nil), args...), name, name)...)
	must(os.MkdirAll(filepath.Join(dir, "c"), 0755))
	if kind == "gltf" {
		copyTree(b, filepath.Join(dir, "c"))
		must(os.RemoveAll(b))
		b = filepath.Join(dir, "c")
		mustCLI(c, b, append(append([]string(nil), args...), name, "out.gltf")...)
		x, err := loadGltfFile(filepath.Join(a, name))
		if err != nil {
			c.Fatalf("%v", err)
		}
		y, err := loadGltfFile(filepath.Join(b, "out.gltf"))
		if err != nil {
			c.Fatalf("%v", err)
		}
		sameWorld(c, y, x)
	} else {
		mustCLI(c, b, append(append([]string(nil), args...), name, filepath.Join(dir, "c", name))...)
		ref, got := readTree(filepath.Join(dir, "c")), readTree(a)
		for n := range got {
			if _, ok := ref[n]; !ok {
				delete(got, n) // belongs to the input
			}
		}
		sameFiles(c, "in place", ref, got, [2]string{})
	}
	c.Obs("in_place")
	c.Sig("%s", kind)
}

func runVmdCase(c *C) {
	r := c.R
	d, bones, morphs := genRig(c)
	dir := c.Dir()
	must(mqo.Save(d, filepath.Join(dir, "in.mqo")))
	n := 1 + r.Intn(2)
	args := []string{"in.mqo"}
	for i := 0; i < n; i++ {
		m := genMotion(r, bones, morphs)
		f := fmt.Sprintf("m%d.%s", i, []string{"vmd", "VMD"}[r.Intn(2)])
		must(os.WriteFile(filepath.Join(dir, f), encVMD(r, m, r.Intn(2) == 0), 0644))
		args = append(args, f)
	}
	broken := r.Intn(4) == 0
	if broken {
		switch r.Intn(2) {
		case 0:
			args = append(args, "missing.vmd")
		case 1:
			must(os.WriteFile(filepath.Join(dir, "bad.vmd"), []byte("Vocaloid Motion Data 0002"), 0644))
			args = append(args, "bad.vmd")
		}
	}
	out := []string{"out.glb", "out.gltf"}[r.Intn(2)]
	want := 0
	if !broken { // a motion for none of the model's bones gives no animation
		for _, f := range args[1:] {
			mustCLI(c, dir, "in.mqo", f, "single.glb")
			g, err := loadGltfFile(filepath.Join(dir, "single.glb"))
			if err != nil {
				c.Fatalf("%v", err)
			}
			want += len(g.Animations)
		}
	}
	res := runCLI(c, dir, append(args, out)...)
	if broken {
		if res.code == 0 {
			c.Failf("modelconv %v: exit code 0", args)
		}
		c.Obs("error")
		return
	}
	if res.code != 0 {
		c.Fatalf("modelconv %v: exit code %d: %s", args, res.code, tail(res.stderr, 300))
	}
	g, err := loadGltfFile(filepath.Join(dir, out))
	if err != nil {
		c.Fatalf("%v", err)
	}
	checkGltf(c, g)
	if len(g.Animations) != want || want > n {
		c.Failf("%d motions gave %d animations, %d when converted one by one", n, len(g.Animations), want)
	}
	if want > 0 {
		c.Obs("animated")
	}
	c.Obs("vmd")
	c.Sig("vmd %d", n)
}

func runErrorCase(c *C) {
	r := c.R
	dir := c.Dir()
	kind := inputKinds[r.Intn(8)]
	in := filepath.Base(anyInput(c, dir, kind, "in"))
	out := "out.mqo"
	var what string
	k := r.Intn(9)
	if kind == "mqo" && (k == 5 || k == 6) {
		k = 0 // the reader skips what it does not know
	}
	switch k {
	case 0:
		what, in = "missing input", "missing."+kind
	case 1:
		what = "unknown input type"
		must(os.Rename(filepath.Join(dir, in), filepath.Join(dir, "in.xyz")))
		in = "in.xyz"
	case 2:
		what, out = "unknown output type", []string{"out.xyz", "out", "out.", "out.obj", "out.vmd", "out.unity"}[r.Intn(6)]
	case 3:
		what, out = "missing directory", "no/such/dir/out."+[]string{"mqo", "mqoz", "pmx", "glb", "gltf", "vrm"}[r.Intn(6)]
	case 4:
		what, out = "output is a directory", "out."+[]string{"mqo", "mqoz", "glb", "gltf"}[r.Intn(4)]
		must(os.MkdirAll(filepath.Join(dir, out), 0755))
	case 5:
		what = "empty input"
		must(os.WriteFile(filepath.Join(dir, in), nil, 0644))
	case 6:
		what = "foreign content"
		must(os.WriteFile(filepath.Join(dir, in), []byte("<html>this is something else entirely, but long enough for every header</html>\n"), 0644))
	case 7:
		what = "input is a directory"
		must(os.Remove(filepath.Join(dir, in)))
		must(os.MkdirAll(filepath.Join(dir, in), 0755))
	case 8:
		what = "unsupported combination"
		switch kind {
		case "glb", "gltf", "vrm":
			out = "out.fbx"
		case "fbx":
			out = "out.pmd"
		default:
			out = "out.fbx"
		}
	}
	before := treeHashes(dir)
	res := runCLI(c, dir, in, out)
	if res.code == 0 {
		c.Failf("%s (%s): exit status 0\n%s", what, kind, tail(res.stderr, 300))
	}
	if strings.TrimSpace(res.stderr) == "" {
		c.Failf("%s (%s): no message", what, kind)
	}
	now := treeHashes(dir)
	for n, h := range before {
		if now[n] != h {
			c.Failf("%s (%s): %s changed", what, kind, n)
		}
	}
	if what != "unknown output type" { // may have been created
		for n := range now {
			if _, ok := before[n]; !ok && what != "unsupported combination" {
				c.Failf("%s (%s): %s was written", what, kind, n)
			}
		}
	}
	c.Obs("error")
	c.Sig("%s %s", what, kind)
}

// ---------------------------------------------------------------- P30

func runRepeatCase(c *C) {
	r := c.R
	kind := inputKinds[r.Intn(len(inputKinds))]
	outs := outputsFor(kind)
	format := outs[r.Intn(len(outs))]
	c.Obs("out_" + format)
	dir := c.Dir()
	src := filepath.Join(dir, "src")
	in := anyInput(c, src, kind, "in")
	rel, err := filepath.Rel(src, in)
	must(err)
	var args []string
	for _, o := range []string{"-physics", "-texReCompress", "-reuseGeometry", "-gltfExportLight", "-detectAlphaTexture", "-ignoreHierarchy", "-vrmExportAllMorph", "-rot180"} {
		if r.Intn(4) == 0 {
			args = append(args, o)
			c.Obs("options")
		}
	}
	if r.Intn(3) == 0 {
		args = append(args, "-scale", "2", "-unlit", "*")
	}
	if format == "vrm" && r.Intn(2) == 0 {
		must(os.WriteFile(filepath.Join(src, "conf.json"), []byte(`{"preset":"mmd","exportAllMorph":true,"animationBoneGroups":[{"nodeNames":["*"],"colliderGroups":[0]}],"materialSettings":{"*":{"alphaMode":"blend"},"body":{"forceUnlit":true}},"colliderGroups":[{"nodeName":"head","colliders":[{"offset":{"x":1,"y":2,"z":3},"radius":1}]}]}`), 0644))
		args = append(args, "-vrmconfig", "conf.json")
	}
	n := 3
	if c.Thorough {
		n = 6
	}
	var first map[string][]byte
	code := 0
	for i := 0; i < n; i++ {
		w := filepath.Join(dir, fmt.Sprintf("w%d", i))
		copyTree(src, w)
		res := runCLI(c, w, append(append([]string(nil), args...), rel, "result."+format)...)
		t := readTree(w)
		must(os.RemoveAll(w))
		if i == 0 {
			first, code = t, res.code
			if code != 0 {
				c.Fatalf("modelconv %v %s result.%s: exit code %d\n%s", args, rel, format, code, tail(res.stderr, 400))
			}
			continue
		}
		if res.code != code {
			c.Fatalf("exit codes %d and %d", code, res.code)
		}
		sameFiles(c, fmt.Sprintf("%s to %s %v, run %d", kind, format, args, i+1), first, t, [2]string{})
		c.Obs("same")
	}
	c.Sig("%s>%s %d", kind, format, len(first))
}

// ---------------------------------------------------------------- P31

func writeFaultCase(c *C) {
	r := c.R
	var write func(w io.Writer) error
	kind := r.Intn(3)
	switch kind {
	case 0:
		d := genModel(r, false)
		write = func(w io.Writer) error { return mmd.WritePMX(d, w) }
		c.Obs("fault_pmx")
	case 1:
		d := genMQO(r, false)
		write = func(w io.Writer) error { return mqo.NewWriter("").WriteMQO(d, w) }
		c.Obs("fault_mqo")
	case 2:
		in := anyInput(c, c.Dir(), "glb", "in")
		doc, err := gltfutil.Load(in)
		if err != nil {
			c.Fatalf("%v", err)
		}
		must(gltfutil.ToSingleFile(doc, c.Dir()))
		write = func(w io.Writer) error { return vrm.Write((*vrm.Document)(doc), w, filepath.Join(c.Dir(), "out.vrm")) }
		c.Obs("fault_vrm")
	}
	var full bytes.Buffer
	if err := write(&full); err != nil {
		c.Fatalf("writing failed: %v", err)
	}
	n := full.Len()
	c.Obs("no_fault")
	if n == 0 {
		c.Fatalf("nothing was written")
	}
	for i := 0; i < 6; i++ {
		k := r.Intn(n)
		switch i {
		case 0:
			k = 0
		case 1:
			k = n - 1
		}
		w := &failWriter{k}
		if err := write(w); err == nil {
			c.Fatalf("writer %d reports success although only %d of %d bytes could be written", kind, k, n)
		}
		c.Obs("stream_fault")
	}
	c.Sig("k%d n%d", kind, n/256)
}

func fullDeviceCase(c *C) {
	r := c.R
	kind := []string{"mqo", "glb", "pmx", "fbx"}[r.Intn(4)]
	outs := outputsFor(kind)
	format := outs[r.Intn(len(outs))]
	dir := c.Dir()
	in := filepath.Base(anyInput(c, dir, kind, "in"))
	// which files are written?
	before := treeHashes(dir)
	mustCLI(c, dir, in, "out."+format)
	var files []string
	for n, b := range readTree(dir) {
		if _, ok := before[n]; !ok && len(b) > 0 {
			files = append(files, n)
		}
	}
	sort.Strings(files)
	c.Obs("out_" + format)
	for _, f := range files {
		must(os.Remove(filepath.Join(dir, f)))
		must(os.Symlink("/dev/full", filepath.Join(dir, f)))
		res := runCLI(c, dir, in, "out."+format)
		if res.code == 0 {
			c.Failf("%s to %s: no error although %s could not be written", kind, format, f)
		}
		must(os.Remove(filepath.Join(dir, f)))
		c.Obs("full_device")
		if f != "out."+format {
			c.Obs("full_second_file")
		}
		mustCLI(c, dir, in, "out."+format)
	}
	// files that cannot be created at all
	for _, f := range files {
		must(os.Remove(filepath.Join(dir, f)))
		must(os.MkdirAll(filepath.Join(dir, f, "x"), 0755))
		if res := runCLI(c, dir, in, "out."+format); res.code == 0 {
			c.Failf("%s to %s: no error although %s could not be created", kind, format, f)
		}
		must(os.RemoveAll(filepath.Join(dir, f)))
		mustCLI(c, dir, in, "out."+format)
		c.Obs("cannot_create")
	}
	if res := runCLI(c, dir, in, filepath.Join("no", "such", "dir", "out."+format)); res.code == 0 {
		if _, err := os.Stat(filepath.Join(dir, "no", "such", "dir", "out."+format)); err != nil {
			c.Failf("%s to %s: no error although the directory does not exist", kind, format)
		}
	}
	c.Sig("%s>%s %d", kind, format, len(files))
}
