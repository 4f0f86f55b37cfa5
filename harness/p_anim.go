package main

// VMD motions (P17) and their conversion to glTF animations (P18).

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
)

func init() {
	register(&Prop{
		ID:      "P17",
		Rule:    "seeded motions encoded by an independent VMD encoder (Shift_JIS names of every length, garbage after the terminator, unsorted and repeated frames, camera/light/shadow sections after the morphs) are parsed by the real parser through ordinary and hostile readers and compared sample by sample; channels are compared with an independent grouping",
		Require: []string{"bone_sample", "morph_sample", "channel", "small_reads", "full_width_name", "trailing_sections", "repeated_frame", "many_keys"},
		Cases:   vmdCases,
	})
	register(&Prop{
		ID:   "P18",
		Rule: "seeded skeletons, morph meshes and motions are converted and the animation of the written glTF, read back independently, is evaluated at every key frame of every channel and compared with the motion in glTF coordinates",
		Assumptions: []string{
			"bone rotation offsets are those of -rot180 (0 or half a turn around Y); the T-pose correction is not modelled",
			"the model has the tool's default scale for MMD models (80 before the 0.001 of glTF)",
		},
		Require: []string{"rotation_key", "translation_key", "weight_key", "weight_between", "half_turn", "nested_translation", "unknown_target", "clamped"},
		Cases:   motionCases,
	})
}

func genMotion(r *rand.Rand, bones, morphs []string) *mmd.Animation {
	a := &mmd.Animation{Name: rname(r, sjisAlphabet, 4)}
	frames := func() []int {
		n := 1 + r.Intn(5)
		set := map[int]bool{}
		for i := 0; i < n; i++ {
			set[r.Intn(40)] = true
		}
		if r.Intn(2) == 0 {
			set[0] = true
		}
		if r.Intn(10) == 0 {
			set[100000+r.Intn(1000)] = true
		}
		var out []int
		for f := range set {
			out = append(out, f)
		}
		sort.Ints(out)
		return out
	}
	shared := frames()
	for _, b := range bones {
		if r.Intn(5) == 0 {
			continue
		}
		fs := shared
		if r.Intn(2) == 0 {
			fs = frames()
		}
		move, turn := r.Intn(2) == 0, r.Intn(3) > 0
		only := -1 // every movement along, and every rotation about, one axis
		if r.Intn(3) == 0 {
			only = r.Intn(3)
		}
		for _, f := range fs {
			s := &mmd.AnimationBoneSample{Target: b, Frame: f, Rotation: mmd.Quaternion{W: 1}}
			if turn && r.Intn(4) > 0 {
				s.Rotation = *rquat(r).g()
			}
			if move && r.Intn(4) > 0 {
				s.Position = *rv3(r, 20).g()
			}
			if only >= 0 {
				p, q := s.Position, s.Rotation
				s.Position = [3]mmd.Vector3{{X: p.X}, {Y: p.Y}, {Z: p.Z}}[only]
				if q.W != 1 {
					x := (r.Float64() - 0.5) * 6
					sn, cs := float32(math.Sin(x)), float32(math.Cos(x))
					s.Rotation = [3]mmd.Quaternion{{X: sn, W: cs}, {Y: sn, W: cs}, {Z: sn, W: cs}}[only]
				}
			}
			r.Read(s.Params[:])
			a.Bone = append(a.Bone, s)
		}
	}
	for _, m := range morphs {
		if r.Intn(5) == 0 {
			continue
		}
		fs := shared
		if r.Intn(2) == 0 {
			fs = frames()
		}
		for _, f := range fs {
			v := rweight(r)
			if r.Intn(8) == 0 {
				v = []float32{-0.5, 1.25, 2, 1.0001}[r.Intn(4)]
			}
			a.Morph = append(a.Morph, &mmd.AnimationMorphSample{Target: m, Frame: f, Value: v})
		}
	}
	r.Shuffle(len(a.Bone), func(i, j int) { a.Bone[i], a.Bone[j] = a.Bone[j], a.Bone[i] })
	r.Shuffle(len(a.Morph), func(i, j int) { a.Morph[i], a.Morph[j] = a.Morph[j], a.Morph[i] })
	return a
}

func encVMD(r *rand.Rand, a *mmd.Animation, tail bool) []byte {
	b := &bin{}
	fill := byte(0)
	if r.Intn(2) == 0 {
		fill = 0xFD
	}
	b.Write(fixedSJIS("Vocaloid Motion Data 0002", 30, fill))
	b.Write(fixedSJIS(a.Name, 20, fill))
	b.u32(len(a.Bone))
	for _, s := range a.Bone {
		b.Write(fixedSJIS(s.Target, 15, fill))
		b.u32(s.Frame)
		b.f32s(s.Position.X, s.Position.Y, s.Position.Z, s.Rotation.X, s.Rotation.Y, s.Rotation.Z, s.Rotation.W)
		b.Write(s.Params[:])
	}
	b.u32(len(a.Morph))
	for _, s := range a.Morph {
		b.Write(fixedSJIS(s.Target, 15, fill))
		b.u32(s.Frame)
		b.f32(s.Value)
	}
	if tail {
		b.u32(1) // camera
		b.Write(make([]byte, 61))
		b.u32(0)
		b.u32(0)
	}
	return b.Bytes()
}

func vmdCases(r *Run) {
	r.Repeat("large", r.N(3, 30), vmdLargeCase)
	r.Repeat("load", r.N(1500, 15000), func(c *C) {
		r := c.R
		mk := func(p string, n int) (out []string) {
			used := map[string]bool{}
			for i := 0; i < n; i++ {
				s := p + rname(r, sjisAlphabet, 6)
				if r.Intn(4) == 0 { // exactly as wide as the field
					s = p + fmt.Sprint(r.Intn(10))
					for len(sjis(s)) < 13 {
						s += "腕"
					}
					for len(sjis(s)) < 15 {
						s += "x"
					}
					c.Obs("full_width_name")
				}
				if len(sjis(s)) > 15 || used[s] {
					continue
				}
				used[s] = true
				out = append(out, s)
			}
			return
		}
		a := genMotion(r, mk("b", r.Intn(6)), mk("m", r.Intn(4)))
		if len(a.Bone) > 1 && r.Intn(3) == 0 {
			s := *a.Bone[0]
			s.Position.X++
			a.Bone = append(a.Bone, &s)
			c.Obs("repeated_frame")
		}
		if len(a.Morph) > 1 && r.Intn(3) == 0 {
			s := *a.Morph[r.Intn(len(a.Morph))]
			s.Value = 0.5 + s.Value/3
			a.Morph = append(a.Morph, &s)
			c.Obs("repeated_morph_frame")
		}
		tail := r.Intn(2) == 0
		if tail {
			c.Obs("trailing_sections")
		}
		data := encVMD(r, a, tail)
		g, err := mmd.NewVMDParser(hostileReader(c, data)).Parse()
		if err != nil {
			c.Fatalf("a valid motion was rejected: %v", err)
		}
		if g.Name != a.Name || len(g.Bone) != len(a.Bone) || len(g.Morph) != len(a.Morph) {
			c.Fatalf("motion %q with %d+%d samples became %q with %d+%d", a.Name, len(a.Bone), len(a.Morph), g.Name, len(g.Bone), len(g.Morph))
		}
		for i, s := range a.Bone {
			if *g.Bone[i] != *s {
				c.Fatalf("bone sample %d: %+v, want %+v", i, *g.Bone[i], *s)
			}
		}
		for i, s := range a.Morph {
			if *g.Morph[i] != *s {
				c.Fatalf("morph sample %d: %+v, want %+v", i, *g.Morph[i], *s)
			}
		}
		c.ObsN("bone_sample", len(g.Bone))
		c.ObsN("morph_sample", len(g.Morph))
		// channels: per target, ascending frames, each with its own sample (the last one wins)
		type key struct {
			t string
			f int
		}
		bs := map[key]*mmd.AnimationBoneSample{}
		nb := map[string]int{}
		for _, s := range a.Bone {
			if bs[key{s.Target, s.Frame}] == nil {
				nb[s.Target]++
			}
			bs[key{s.Target, s.Frame}] = s
		}
		ch := g.GetBoneChannels()
		if len(ch) != len(nb) {
			c.Fatalf("%d bone channels, want %d", len(ch), len(nb))
		}
		for name, x := range ch {
			if x.Target != name || len(x.Frames) != nb[name] || len(x.Rotations) != nb[name] || len(x.Positions) != nb[name] {
				c.Fatalf("channel %q (%q) has %d frames, %d rotations, %d positions, want %d", name, x.Target, len(x.Frames), len(x.Rotations), len(x.Positions), nb[name])
			}
			for i, f := range x.Frames {
				s := bs[key{name, int(f)}]
				if s == nil || i > 0 && f <= x.Frames[i-1] || *x.Rotations[i] != s.Rotation || *x.Positions[i] != s.Position {
					c.Fatalf("channel %q frame %d (frames %v) has %v %v, want %+v", name, f, x.Frames, *x.Rotations[i], *x.Positions[i], s)
				}
				c.Obs("channel")
			}
		}
		ms := map[key]*mmd.AnimationMorphSample{}
		nmo := map[string]int{}
		for _, s := range a.Morph {
			if ms[key{s.Target, s.Frame}] == nil {
				nmo[s.Target]++
			}
			ms[key{s.Target, s.Frame}] = s
		}
		mch := g.GetMorphChannels()
		if len(mch) != len(nmo) {
			c.Fatalf("%d morph channels, want %d", len(mch), len(nmo))
		}
		for name, x := range mch {
			if x.Target != name || len(x.Frames) != nmo[name] || len(x.Weights) != nmo[name] {
				c.Fatalf("morph channel %q has %d frames, %d weights, want %d", name, len(x.Frames), len(x.Weights), nmo[name])
			}
			for i, f := range x.Frames {
				s := ms[key{name, int(f)}]
				if s == nil || i > 0 && f <= x.Frames[i-1] || x.Weights[i] != s.Value {
					c.Fatalf("morph channel %q frame %d has %v, want %+v", name, f, x.Weights[i], s)
				}
			}
		}
		c.Sig("%d %d %x", len(a.Bone), len(a.Morph), data[:20])
	})
	r.Repeat("wrong-format", r.N(60, 300), func(c *C) {
		a := genMotion(c.R, []string{"b"}, []string{"m"})
		data := encVMD(c.R, a, false)
		data[c.R.Intn(25)] ^= byte(1 + c.R.Intn(255))
		g, err := mmd.NewVMDParser(bytes.NewReader(data)).Parse()
		if err == nil || g != nil {
			c.Fatalf("a file with another signature was accepted: %q", data[:30])
		}
		c.Obs("wrong_format")
	})
}

// genRig builds a document with a skeleton and morphable meshes.
func genRig(c *C) (*mqo.Document, []string, []string) {
	r := c.R
	d := mqo.NewDocument()
	d.Materials = []*mqo.Material{{Name: "m", Color: geom.Vector4{X: 1, Y: 1, Z: 1, W: 1}}}
	uid := 0
	mk := func(name string) *mqo.Object {
		o := mqo.NewObject(name)
		uid++
		o.UID = uid
		d.Objects = append(d.Objects, o)
		return o
	}
	mp := mqo.GetMorphPlugin(d)
	var morphs []string
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		o := mk(fmt.Sprintf("obj%d", i))
		for k := 1 + r.Intn(2); k > 0; k-- {
			addPolygon(c, o, 0)
		}
		if r.Intn(4) == 0 {
			continue
		}
		l := &mqo.MorphTargetList{Base: o.Name}
		for k := 1 + r.Intn(3); k > 0; k-- {
			t := mk(fmt.Sprintf("morph%d%s", len(morphs), rname(r, sjisAlphabet, 2)))
			for _, v := range o.Vertexes {
				t.Vertexes = append(t.Vertexes, v3(v).add(rv3(r, 5)).g())
			}
			morphs = append(morphs, t.Name)
			l.Target = append(l.Target, &mqo.MorphTarget{Name: t.Name})
		}
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
	}
	var bones []string
	bp := mqo.GetBonePlugin(d)
	ids := r.Perm(20)
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		b := &mqo.Bone{ID: ids[i] + 1, Name: fmt.Sprintf("bone%d%s", i, rname(r, sjisAlphabet, 2)), Pos: mqo.Vector3Attr{Vector3: *rv3(r, 300).g()}}
		if i > 0 && r.Intn(4) > 0 {
			b.Parent = ids[r.Intn(i)] + 1
		}
		bones = append(bones, b.Name)
		bp.AddBone(b)
	}
	if r.Intn(2) == 0 {
		bs := bp.Bones()
		r.Shuffle(n, func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
	}
	return d, bones, morphs
}

func motionCases(r *Run) {
	r.Repeat("motion", r.N(1500, 15000), motionCase)
}

func motionCase(c *C) {
	r := c.R
	d, bones, morphs := genRig(c)
	half := r.Intn(2) == 0
	if half {
		for _, b := range mqo.GetBonePlugin(d).Bones() {
			b.RotationOffset.Y = math.Pi
		}
	}
	a := genMotion(r, append([]string{"unknown bone"}, bones...), append([]string{"unknown morph"}, morphs...))
	conv := converter.NewMQOToGLTFConverter(nil)
	doc, err := conv.Convert(d, c.Dir())
	if err != nil {
		c.Fatalf("%v", err)
	}
	src := deepCopy(reflectValue(a)).Interface().(*mmd.Animation)
	converter.AddAnimationTpGlb(doc, a, conv.JointNodeToBone, true)
	g := rereadGltf(c, doc)
	checkGltf(c, g)
	if len(g.Animations) > 1 {
		c.Fatalf("%d animations", len(g.Animations))
	}
	type track struct {
		t   []float64
		out [][]float64
	}
	tracks := map[string]*track{}
	if len(g.Animations) == 1 {
		an := g.Animations[0]
		if an.Name != src.Name {
			c.Fatalf("animation is called %q, want %q", an.Name, src.Name)
		}
		for _, ch := range an.Channels {
			s := an.Samplers[ch.Sampler]
			if s.Interpolation != "" && s.Interpolation != "LINEAR" {
				c.Fatalf("interpolation %q", s.Interpolation)
			}
			t := &track{out: g.mustRead(c, s.Output)}
			for _, e := range g.mustRead(c, s.Input) {
				t.t = append(t.t, e[0])
			}
			tracks[g.Nodes[*ch.Target.Node].Name+"/"+ch.Target.Path] = t
		}
	}
	eval := func(t *track, at float64, n, per int) []float64 {
		// linear interpolation of n values per key
		row := func(i int) []float64 {
			var v []float64
			for k := 0; k < per; k++ {
				v = append(v, t.out[i*per+k]...)
			}
			return v
		}
		if at <= t.t[0] {
			return row(0)
		}
		for i := 1; i < len(t.t); i++ {
			if at <= t.t[i] {
				f := (at - t.t[i-1]) / (t.t[i] - t.t[i-1])
				x, y := row(i-1), row(i)
				for k := range x {
					x[k] = x[k]*(1-f) + y[k]*f
				}
				return x
			}
		}
		return row(len(t.t) - 1)
	}
	nodes := g.nodesByName(c)
	_, parents := g.worlds()
	seen := map[string]bool{}
	for _, s := range src.Bone {
		ni, ok := nodes[s.Target]
		if !ok {
			c.Obs("unknown_target")
			continue
		}
		n := g.Nodes[ni]
		at := f32(float64(s.Frame) / 30)
		q := Q4{-float64(s.Rotation.X), -float64(s.Rotation.Y), float64(s.Rotation.Z), float64(s.Rotation.W)}
		p := V3{float64(s.Position.X), float64(s.Position.Y), -float64(s.Position.Z)}.mul(0.08)
		if half {
			q = Q4{-q[0], q[1], -q[2], q[3]}
			p = V3{-p[0], p[1], -p[2]}
			c.Obs("half_turn")
		}
		gq := []float64{0, 0, 0, 1}
		if t := tracks[s.Target+"/rotation"]; t != nil {
			gq = eval(t, at, 4, 1)
			seen[s.Target+"/rotation"] = true
		} else if len(n.Rotation) == 4 {
			gq = n.Rotation
		}
		dq := 0.0
		for k := range q {
			dq += q[k] * gq[k]
		}
		if !near(math.Abs(dq), 1, 1e-4) || !near(Q4{gq[0], gq[1], gq[2], gq[3]}.len(), 1, 1e-3) {
			c.Fatalf("bone %q frame %d: rotation %v, want %v", s.Target, s.Frame, gq, q)
		}
		c.Obs("rotation_key")
		rest := V3{}
		copy(rest[:], n.Translation)
		gt := n.Translation
		if gt == nil {
			gt = []float64{0, 0, 0}
		}
		if t := tracks[s.Target+"/translation"]; t != nil {
			gt = eval(t, at, 3, 1)
			seen[s.Target+"/translation"] = true
		}
		want := rest.add(p)
		if !(want.dist(V3{gt[0], gt[1], gt[2]}) <= 1e-5*(1+want.len())) {
			c.Fatalf("bone %q frame %d: translation %v, want %v (rest position %v)", s.Target, s.Frame, gt, want, rest)
		}
		c.Obs("translation_key")
		if parents[ni] >= 0 && p.len() > 0 {
			c.Obs("nested_translation")
		}
	}
	// morph weights: each target follows its own keys, linearly in between
	keys := map[string][]*mmd.AnimationMorphSample{}
	all := map[int]bool{}
	for _, s := range src.Morph {
		keys[s.Target] = append(keys[s.Target], s)
		all[s.Frame] = true
	}
	cl := func(x float32) float64 { return math.Max(0, math.Min(1, float64(x))) }
	found := map[string]bool{}
	for _, n := range g.Nodes {
		if n.Mesh == nil {
			continue
		}
		names := g.Meshes[*n.Mesh].Extras.TargetNames
		t := tracks[n.Name+"/weights"]
		for ti, name := range names {
			ks := keys[name]
			found[name] = true
			sort.Slice(ks, func(i, j int) bool { return ks[i].Frame < ks[j].Frame })
			if len(ks) > 0 && t == nil {
				c.Fatalf("morph %q of %q is not animated", name, n.Name)
			}
			if t == nil {
				continue
			}
			seen[n.Name+"/weights"] = true
			for f := range all {
				got := eval(t, f32(float64(f)/30), 1, len(names))[ti]
				want := 0.0
				if len(ks) > 0 {
					want = cl(ks[len(ks)-1].Value)
					if f <= ks[0].Frame {
						want = cl(ks[0].Value)
					}
					exact := false
					for i, k := range ks {
						if k.Frame == f {
							exact = true
							if cl(k.Value) != float64(k.Value) {
								c.Obs("clamped")
							}
						}
						if i > 0 && ks[i-1].Frame <= f && f <= k.Frame {
							u := float64(f-ks[i-1].Frame) / float64(k.Frame-ks[i-1].Frame)
							if cl(k.Value) != float64(k.Value) || cl(ks[i-1].Value) != float64(ks[i-1].Value) {
								if u != 0 && u != 1 { // clamping before or after interpolating both are fine
									want = -1
									break
								}
							}
							want = cl(ks[i-1].Value)*(1-u) + cl(k.Value)*u
						}
					}
					if want < 0 {
						continue
					}
					if exact {
						c.Obs("weight_key")
					} else {
						c.Obs("weight_between")
					}
				}
				if !near(got, want, 1.01/255+1e-6) {
					c.Fatalf("morph %q of %q at frame %d has weight %v, want %v", name, n.Name, f, got, want)
				}
			}
		}
	}
	for name := range keys {
		if !found[name] {
			c.Obs("unknown_target")
		}
	}
	for k := range tracks {
		if !seen[k] {
			c.Fatalf("channel %q animates something the motion does not mention", k)
		}
	}
	c.Sig("%v %d %d", half, len(src.Bone), len(src.Morph))
}
