package main

// Concurrent use (P33): independent conversions in one process do not
// interfere. Runs in a build with the race detector; every detected race ends
// the worker and is a violation.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
	"github.com/qmuntal/gltf"
)

func init() {
	register(&Prop{
		ID:          "P33",
		Race:        true,
		Shards:      4,
		Rule:        "several inputs of all formats are converted through the library API one after the other and then, several times each, in concurrent goroutines of a process built with the race detector; races and outputs that differ from the sequential run are violations",
		Assumptions: []string{"every goroutine uses its own documents and its own output directory; options and inputs on disk are shared"},
		Require:     []string{"sequential", "concurrent", "job_pmx", "job_pmd", "job_mqo", "job_mqoz", "job_fbx", "job_glb", "job_gltf", "job_vrm", "job_unity", "job_unitypackage", "job_vmd", "out_pmx", "out_mqo", "out_glb", "out_gltf", "out_vrm", "out_mqoz", "out_fbx", "compared", "config_file", "concurrent_first"},
		Cases: func(r *Run) {
			r.Repeat("mix", r.N(500, 2400), concurrentCase)
		},
	})
}

var sharedOptions = []*converter.MQOToGLTFOption{nil, {ConvertPhysics: true, TextureResolutionLimit: 16, TextureScale: 0.5, ExportLights: true}, {TextureReCompress: true, ReuseGeometry: true, DetectAlphaTexture: true}}

type concJob struct {
	in, vmd, kind, out string
	opt                *converter.MQOToGLTFOption // shared
	ownOpt             *converter.MQOToGLTFOption // copied for every run
	mmdOpt             *converter.MMDToMQOOption
	conf               *string
	scale              float32
}

// run performs the job into dir with the library calls a program would make.
// gate is called between loading and converting.
func (j *concJob) run(dir string, gate func()) error {
	must(os.MkdirAll(dir, 0755))
	out := filepath.Join(dir, "out."+j.out)
	src := filepath.Dir(j.in)
	var doc *mqo.Document
	var err error
	isG := j.out == "glb" || j.out == "gltf" || j.out == "vrm"
	saveG := func(g *gltf.Document, srcDir string) error {
		switch j.out {
		case "gltf":
			return gltfutil.Save(g, out)
		case "glb":
			if err := gltfutil.ToSingleFile(g, srcDir); err != nil {
				return err
			}
			return gltfutil.SaveBinary(g, out)
		}
		conf, err := converter.LoadVRMConfig(*j.conf)
		if err != nil {
			return err
		}
		if _, err := converter.ApplyVRMConfig(g, out, srcDir, conf); err != nil {
			return err
		}
		return gltfutil.SaveBinary(g, out)
	}
	m := geom.NewScaleMatrix4(j.scale, j.scale, j.scale)
	switch j.kind {
	case "pmx", "pmd":
		md, err := mmd.Load(j.in)
		if err != nil {
			return err
		}
		doc = converter.NewMMDToMQOConverter(j.mmdOpt).Convert(md)
	case "mqo", "mqoz":
		if doc, err = mqo.Load(j.in); err != nil {
			return err
		}
	case "fbx":
		fd, err := fbx.Load(j.in)
		if err != nil {
			return err
		}
		if j.out == "fbx" {
			return fbx.Save(fd, out)
		}
		if doc, err = converter.NewFBXToMQOConverter(nil).Convert(fd); err != nil {
			return err
		}
	case "glb", "gltf", "vrm":
		g, err := gltfutil.Load(j.in)
		if err != nil {
			return err
		}
		if isG {
			gltfutil.ApplyTransform(g, m)
			return saveG(g, src)
		}
		if doc, err = converter.NewGLTFToMQOConverter(nil).Convert(g); err != nil {
			return err
		}
	case "unity", "unitypackage":
		p := strings.SplitN(j.in, "#", 2)
		var as unity.Assets
		scene := ""
		if len(p) == 2 {
			as, err = unity.OpenPackage(p[0])
			scene = p[1]
		} else {
			k := strings.LastIndex(j.in, "/Assets/")
			as, err = unity.OpenProject(j.in[:k])
			scene = j.in[k+1:]
		}
		if err != nil {
			return err
		}
		defer as.Close()
		sc, err := unity.LoadScene(as, scene)
		if err != nil {
			return err
		}
		if doc, err = converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{ConvertPhysics: true}).Convert(sc); err != nil {
			return err
		}
	}
	gate()
	doc.ApplyTransform(m)
	switch j.out {
	case "mqo":
		return mqo.Save(doc, out)
	case "mqoz":
		return mqo.SaveMQOZ(doc, out)
	case "pmx":
		md, err := converter.NewMQOToMMDConverter(nil).Convert(doc)
		if err != nil {
			return err
		}
		return mmd.Save(md, out)
	}
	opt := j.opt
	if j.ownOpt != nil {
		o := *j.ownOpt
		opt = &o
	}
	conv := converter.NewMQOToGLTFConverter(opt)
	g, err := conv.Convert(doc, src)
	if err != nil {
		return err
	}
	if j.vmd != "" {
		f, err := os.Open(j.vmd)
		must(err)
		defer f.Close()
		a, err := mmd.NewVMDParser(f).Parse()
		if err != nil {
			return err
		}
		converter.AddAnimationTpGlb(g, a, conv.JointNodeToBone, true)
	}
	return saveG(g, src)
}

func concurrentCase(c *C) {
	r := c.R
	kinds := []string{"pmx", "pmd", "mqo", "mqoz", "fbx", "glb", "gltf", "vrm", "unity", "unitypackage", "vmd"}
	var jobs []*concJob
	preset := []string{"", "mmd", "mmd", "file", "file"}[r.Intn(5)]
	if preset == "file" { // a configuration file with a preset, both with colliders and spring bones
		preset = filepath.Join(c.Dir(), "conf.json")
		conf := func() jm {
			var cg, ix ja
			for i, n := range cliNames {
				if r.Intn(2) == 0 {
					ix = append(ix, len(cg))
				}
				cg = append(cg, jm{"nodeName": n, "colliders": ja{jm{"radius": 1 + i, "offset": jm{"x": 0, "y": r.Intn(9), "z": 0}}}})
			}
			n := cliNames[r.Intn(len(cliNames))]
			return jm{"colliderGroups": cg, "animationBoneGroups": ja{jm{"comment": "s", "nodeNames": ja{n, n + "*"}, "colliderGroups": ix}, jm{"comment": "t", "nodeNames": ja{"bone*", "*b"}, "colliderGroups": ix}},
				"boneMappings":     ja{jm{"bone": "head", "nodeNames": ja{n}}, jm{"bone": "hips", "nodeName": "bone0"}},
				"materialSettings": jm{n: jm{"alphaMode": "blend"}, "*": jm{"forceUnlit": r.Intn(2) == 0}}}
		}
		a, b := conf(), conf()
		a["preset"] = filepath.Join(c.Dir(), "preset.json")
		for n, v := range map[string]jm{"conf.json": a, "preset.json": b} {
			js, _ := json.Marshal(v)
			must(os.WriteFile(filepath.Join(c.Dir(), n), js, 0644))
		}
		c.Obs("config_file")
	}
	mo := &converter.MMDToMQOOption{InheritParentThreshold: 0.4}
	for i, n := 0, 2+r.Intn(3); i < n; i++ {
		k := kinds[r.Intn(len(kinds))]
		j := &concJob{kind: k, conf: &preset, mmdOpt: mo, scale: []float32{1, 2, 80}[r.Intn(3)], opt: sharedOptions[r.Intn(len(sharedOptions))]}
		dir := filepath.Join(c.Dir(), fmt.Sprint("in", i))
		c.Obs("job_" + k)
		if k == "vmd" {
			must(os.MkdirAll(dir, 0755))
			d, bones, morphs := genRig(c)
			j.kind, j.in, j.vmd = "mqo", filepath.Join(dir, "in.mqo"), filepath.Join(dir, "m.vmd")
			must(mqo.Save(d, j.in))
			must(os.WriteFile(j.vmd, encVMD(r, genMotion(r, bones, morphs), r.Intn(2) == 0), 0644))
			j.out = []string{"glb", "gltf"}[r.Intn(2)]
		} else {
			j.in = anyInput(c, dir, k, "in")
			o := outputsFor(k)
			j.out = o[r.Intn(len(o))]
		}
		c.Obs("out_" + j.out)
		jobs = append(jobs, j)
	}
	type outcome struct {
		err   error
		files map[string][]byte
	}
	want := make([]outcome, len(jobs))
	sequential := func() {
		for i, j := range jobs {
			dir := filepath.Join(c.Dir(), fmt.Sprint("seq", i))
			want[i] = outcome{j.run(dir, func() {}), readTree(dir)}
			c.Obs("sequential")
			if want[i].err != nil {
				c.Obs("error")
			}
		}
	}
	// what the library sets up on first use must not need a sequential run;
	// options given by the program are filled in by their first use
	late := r.Intn(2) == 0
	if late {
		for _, j := range jobs {
			if j.opt != nil {
				o := *j.opt
				j.opt = nil
				if r.Intn(2) == 0 {
					j.ownOpt = &o
				}
			}
		}
		c.Obs("concurrent_first")
	} else {
		sequential()
	}
	const copies = 3
	got := make([][]outcome, len(jobs))
	start := make(chan bool)
	// sometimes all conversions start at the same moment, so that nothing the
	// loaders do orders them for the race detector
	together := r.Intn(2) == 0
	var wg, loaded sync.WaitGroup
	loaded.Add(len(jobs) * copies)
	var mu sync.Mutex
	for i, j := range jobs {
		got[i] = make([]outcome, copies)
		for k := 0; k < copies; k++ {
			wg.Add(1)
			go func(i, k int, j *concJob) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						got[i][k].err = fmt.Errorf("panic: %v\n%s", e, trimStack())
						mu.Unlock()
					}
				}()
				<-start
				dir := filepath.Join(c.Dir(), fmt.Sprintf("con%d_%d", i, k))
				arrived := false
				arrive := func() {
					if !arrived {
						arrived = true
						loaded.Done()
					}
				}
				defer arrive()
				err := j.run(dir, func() {
					arrive()
					if together {
						loaded.Wait()
						runtime.Gosched()
					}
				})
				arrive()
				mu.Lock()
				got[i][k].err = err
				mu.Unlock()
			}(i, k, j)
		}
	}
	close(start)
	wg.Wait()
	if late {
		sequential()
	}
	for i, j := range jobs {
		for k := 0; k < copies; k++ {
			c.Obs("concurrent")
			g := got[i][k]
			if (g.err == nil) != (want[i].err == nil) {
				c.Failf("%s -> %s: sequentially %v, concurrently %v", j.kind, j.out, want[i].err, g.err)
				continue
			}
			files := readTree(filepath.Join(c.Dir(), fmt.Sprintf("con%d_%d", i, k)))
			var names []string
			for n := range want[i].files {
				names = append(names, n)
			}
			sort.Strings(names)
			if len(files) != len(names) {
				c.Failf("%s -> %s: %d files sequentially, %d concurrently", j.kind, j.out, len(names), len(files))
			}
			for _, n := range names {
				a, b := want[i].files[n], files[n]
				if strings.HasSuffix(n, ".mqoz") {
					continue // archives carry times; their parts are compared by P29 and P30
				}
				if !bytes.Equal(a, b) {
					c.Failf("%s -> %s: %s differs from the sequential run", j.kind, j.out, n)
				}
				c.Obs("compared")
			}
			c.Sig("%s %s %v %d", j.kind, j.out, g.err == nil, len(names))
		}
	}
}
