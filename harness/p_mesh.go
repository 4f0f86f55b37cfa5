package main

import (
	"fmt"
	"reflect"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

func init() {
	register(&Prop{
		ID:          "P09",
		Rule:        "distinct objects (by face shapes and attributes) whose triangulation, normals, clones, flips and renamings by the real code were compared with an independent model",
		Assumptions: []string{"faces are simple planar polygons whose vertices exist"},
		Require:     []string{"tri_poly", "tri_concave", "fixed_normal", "kept_normal", "smooth", "flip", "clone", "renamed"},
		Cases:       meshCases,
	})
}

func meshCases(r *Run) {
	gen := func(c *C) *mqo.Object {
		o := mqo.NewObject("o")
		for k := 1 + c.R.Intn(6); k > 0; k-- {
			f, _ := addPolygon(c, o, c.R.Intn(5))
			f.Material = c.R.Intn(3)
			f.UID = c.R.Intn(9)
		}
		if c.R.Intn(2) == 0 { // polygons sharing vertices
			for k := c.R.Intn(4); k > 0; k-- {
				p := c.R.Perm(len(o.Vertexes))
				o.Faces = append(o.Faces, &mqo.Face{Verts: []int{p[0], p[1], p[2]}, Material: k})
			}
		}
		for _, f := range o.Faces {
			if c.R.Intn(3) > 0 {
				for range f.Verts {
					f.UVs = append(f.UVs, geom.Vector2{X: c.R.Float32(), Y: c.R.Float32()})
				}
			}
			switch c.R.Intn(3) {
			case 0:
				for range f.Verts {
					f.Normals = append(f.Normals, rv3(c.R, 1).unit().g())
				}
			case 1:
				for range f.Verts {
					if c.R.Intn(2) == 0 {
						f.Normals = append(f.Normals, nil)
					} else {
						f.Normals = append(f.Normals, rv3(c.R, 1).unit().g())
					}
				}
			}
		}
		return o
	}
	cp := func(o *mqo.Object) *mqo.Object { return deepCopy(reflect.ValueOf(o)).Interface().(*mqo.Object) }
	sig := func(o *mqo.Object) string {
		s := ""
		for _, f := range o.Faces {
			s += fmt.Sprintf("%d.%d.%d ", len(f.Verts), len(f.UVs), len(f.Normals))
		}
		return s
	}
	r.Repeat("triangulate", r.N(3000, 30000), func(c *C) {
		o := gen(c)
		if c.R.Intn(4) == 0 {
			i := c.R.Intn(len(o.Faces) + 1)
			o.Faces = append(o.Faces[:i:i], append([]*mqo.Face{{Verts: []int{0, 1}}}, o.Faces[i:]...)...)
		}
		before := cp(o)
		o.Triangulate()
		c.Sig("tri %s", sig(before))
		if d := deepDiff(before.Vertexes, o.Vertexes, 0); len(d) > 0 {
			c.Fatalf("triangulating moved vertexes: %v", d)
		}
		type key struct {
			v   int
			uv  geom.Vector2
			nor string
		}
		k := 0
		for fi, f := range before.Faces {
			n := len(f.Verts) - 2
			if n <= 0 {
				continue
			}
			corners := map[string]bool{}
			ck := func(f *mqo.Face, i int) string {
				x := key{v: f.Verts[i]}
				if len(f.UVs) > 0 {
					x.uv = f.UVs[i]
				}
				if len(f.Normals) > 0 && f.Normals[i] != nil {
					x.nor = fmt.Sprint(*f.Normals[i])
				}
				return fmt.Sprint(x)
			}
			for i := range f.Verts {
				corners[ck(f, i)] = true
			}
			want := faceArea(before, f)
			var sum V3
			abs := 0.0
			for t := 0; t < n; t++ {
				if k >= len(o.Faces) {
					c.Fatalf("face %d lost triangles", fi)
				}
				g := o.Faces[k]
				k++
				if len(g.Verts) != 3 || g.Material != f.Material || (len(g.UVs) > 0) != (len(f.UVs) > 0) || (len(g.Normals) > 0) != (len(f.Normals) > 0) {
					c.Fatalf("face %d %+v became %+v", fi, f, g)
				}
				for i := range g.Verts {
					if !corners[ck(g, i)] {
						c.Fatalf("face %d: corner %s is not one of the polygon's corners %v", fi, ck(g, i), corners)
					}
				}
				a := faceArea(before, g)
				sum, abs = sum.add(a), abs+a.len()
			}
			if !(sum.dist(want) <= 1e-3*want.len()) || !near(abs, want.len(), 1e-3*want.len()) {
				c.Fatalf("face %d: area vector %v (sum of sizes %v), want %v", fi, sum, abs, want)
			}
			if n > 1 {
				c.Obs("tri_poly")
				if isConcave(before, f) {
					c.Obs("tri_concave")
				}
			}
		}
		if k != len(o.Faces) {
			c.Fatalf("%d faces, want %d", len(o.Faces), k)
		}
	})
	r.Repeat("normals", r.N(3000, 30000), func(c *C) {
		o := gen(c)
		before := cp(o)
		ref := refSmooth(before)
		got := o.GetSmoothNormals()
		if d := deepDiff(before, o, 0); len(d) > 0 {
			c.Fatalf("computing normals changed the object: %v", d)
		}
		c.Sig("nor %s", sig(before))
		ok := make([]bool, len(ref))
		for i, n := range ref {
			if l := v3(&got[i]).len(); !near(l, 1, 1e-4) {
				c.Fatalf("normal of vertex %d has length %v", i, l)
			}
			if n.len() > 1e-2 {
				ok[i] = true
				if !(n.unit().dist(v3(&got[i])) <= 2e-3) {
					c.Fatalf("smooth normal of vertex %d is %v, want %v", i, got[i], n.unit())
				}
				c.Obs("smooth")
			}
		}
		o.FixhNormals()
		for fi, f := range o.Faces {
			b := before.Faces[fi]
			if len(f.Normals) != len(f.Verts) {
				c.Fatalf("face %d has %d normals for %d corners", fi, len(f.Normals), len(f.Verts))
			}
			for i, n := range f.Normals {
				if n == nil {
					c.Fatalf("face %d corner %d has no normal", fi, i)
				}
				if len(b.Normals) > i && b.Normals[i] != nil {
					if *n != *b.Normals[i] {
						c.Fatalf("face %d corner %d: the given normal %v became %v", fi, i, *b.Normals[i], *n)
					}
					c.Obs("kept_normal")
				} else if ok[f.Verts[i]] {
					if !(ref[f.Verts[i]].unit().dist(v3(n)) <= 2e-3) {
						c.Fatalf("face %d corner %d: normal %v, want %v", fi, i, *n, ref[f.Verts[i]].unit())
					}
					c.Obs("fixed_normal")
				}
			}
			f.Normals, b.Normals = nil, nil
		}
		if d := deepDiff(before, o, 0); len(d) > 0 {
			c.Fatalf("completing normals changed the object: %v", d)
		}
	})
	r.Repeat("flip-clone", r.N(1000, 10000), func(c *C) {
		o := gen(c)
		before := cp(o)
		cl := o.Clone()
		if d := deepDiff(before.Vertexes, cl.Vertexes, 0); len(d) > 0 || len(cl.Faces) != len(o.Faces) {
			c.Fatalf("the clone differs: %v", d)
		}
		for i, f := range cl.Faces {
			g := before.Faces[i]
			if !reflect.DeepEqual(f.Verts, g.Verts) || f.Material != g.Material || len(deepDiff(f.UVs, g.UVs, 0)) > 0 {
				c.Fatalf("face %d of the clone differs: %+v %+v", i, f, g)
			}
		}
		// the clone is independent of the original
		for _, v := range cl.Vertexes {
			v.X += 1
		}
		for _, f := range cl.Faces {
			f.Flip()
			for i := range f.UVs {
				f.UVs[i].X += 1
			}
			f.Material++
		}
		if d := deepDiff(before, o, 0); len(d) > 0 {
			c.Fatalf("changing the clone changed the original: %v", d)
		}
		c.Obs("clone")
		for i, f := range o.Faces {
			f.Flip()
			g := before.Faces[i]
			n := len(g.Verts)
			for k := range g.Verts {
				if f.Verts[n-1-k] != g.Verts[k] || len(g.UVs) > 0 && f.UVs[n-1-k] != g.UVs[k] || len(g.Normals) > 0 && len(deepDiff(f.Normals[n-1-k], g.Normals[k], 0)) > 0 {
					c.Fatalf("flipping face %+v gives %+v", g, f)
				}
			}
			f.Flip()
			c.Obs("flip")
		}
		if d := deepDiff(before, o, 0); len(d) > 0 {
			c.Fatalf("flipping twice changed the object: %v", d)
		}
		c.Sig("clone %s", sig(before))
	})
	r.Repeat("names", r.N(1000, 10000), func(c *C) {
		d := mqo.NewDocument()
		pool := []string{"a", "b", "a_2", "a_3", "", "c", "a_2_2", "b_2"}
		for i := c.R.Intn(9); i > 0; i-- {
			d.Objects = append(d.Objects, mqo.NewObject(pool[c.R.Intn(len(pool))]))
		}
		for i := c.R.Intn(9); i > 0; i-- {
			d.Materials = append(d.Materials, &mqo.Material{Name: pool[c.R.Intn(len(pool))]})
		}
		get := func() (o, m []string) {
			for _, x := range d.Objects {
				o = append(o, x.Name)
			}
			for _, x := range d.Materials {
				m = append(m, x.Name)
			}
			return
		}
		o1, m1 := get()
		d.FixNames()
		o2, m2 := get()
		c.Sig("%q %q", o1, m1)
		for _, p := range [][2][]string{{o1, o2}, {m1, m2}} {
			seen := map[string]bool{}
			first := map[string]bool{}
			for i, n := range p[1] {
				if seen[n] {
					c.Fatalf("%q became %q: not unique", p[0], p[1])
				}
				seen[n] = true
				if n != p[0][i] {
					c.Obs("renamed")
				}
				if len(n) < len(p[0][i]) || n[:len(p[0][i])] != p[0][i] {
					c.Fatalf("%q became %q: unrelated name", p[0], p[1])
				}
				_ = first
			}
		}
		d.FixNames()
		if o3, m3 := get(); !reflect.DeepEqual(o2, o3) || !reflect.DeepEqual(m2, m3) {
			c.Fatalf("unique names changed again: %q -> %q", o2, o3)
		}
	})
}
