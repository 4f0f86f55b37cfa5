package main

import (
	"fmt"
	"math"

	"github.com/binzume/modelconv/geom"
)

func init() {
	register(&Prop{
		ID:   "P01",
		Rule: "seeded random and hand-picked degenerate vectors, unit quaternions, Euler triples (all four orders, gimbal poses, half turns) and TRS/affine/general matrices; every result compared with an independent float64 model under a rounding-error bound; a case is non-trivial when at least one non-identity operand was compared; signature = operation family + rounded operands",
		Assumptions: []string{"operands are finite, quaternions are unit length and matrix scales are non-zero",
			"tolerances are multiples of the float32 rounding bound of the textbook formula"},
		Require: []string{"vec", "quat", "euler2mat", "mat2euler", "gimbal", "matmul", "inverse", "decompose", "mirrored", "halfturn"},
		Cases:   geomCases,
	})
	register(&Prop{
		ID:          "P02",
		Rule:        "seeded simple planar polygons (convex, star-shaped, comb, spiral, rectilinear/grid with collinear vertices, random simple) in random 3D planes and both windings; oracle: exactly n-2 triangles over polygon indices, each with non-negative orientation w.r.t. the polygon's area vector, boundary edges conserved, areas summing to the polygon area; signature = polygon family + n + vertex hash",
		Assumptions: []string{"polygons are simple (no self intersection) and planar up to float32 rounding"},
		Require:     []string{"convex", "star", "comb", "spiral", "grid", "concave_vertices", "tiny"},
		Cases:       triCases,
	})
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol } // false for NaN

func geomCases(r *Run) {
	orders := []struct {
		o geom.RotationOrder
		s string
	}{{geom.RotationOrderXYZ, "XYZ"}, {geom.RotationOrderYXZ, "YXZ"}, {geom.RotationOrderZXY, "ZXY"}, {geom.RotationOrderZYX, "ZYX"}}
	n := r.N(8, 80)

	r.Repeat("vec", 100*n, func(c *C) {
		for k := 0; k < 40; k++ {
			s := math.Pow(10, c.R.Float64()*8-4)
			a, b := rv3(c.R, s), rv3(c.R, s)
			if c.R.Intn(8) == 0 {
				a[c.R.Intn(3)] = 0
			}
			ga, gb := a.g(), b.g()
			tol := 8 * eps32 * s
			chk := func(name string, got *geom.Vector3, want V3, tol float64) {
				if d := v3(got).dist(want); !(d <= tol) {
					c.Failf("Vector3.%s(%v,%v)=%v want %v", name, a, b, *got, want)
				}
			}
			chk("Add", ga.Add(gb), a.add(b), tol)
			chk("Sub", ga.Sub(gb), a.sub(b), tol)
			f := f32(c.R.NormFloat64() * 3)
			chk("Scale", ga.Scale(float32(f)), a.mul(f), tol*(1+math.Abs(f)))
			chk("Cross", ga.Cross(gb), a.cross(b), 16*eps32*s*s)
			if !near(float64(ga.Dot(gb)), a.dot(b), 16*eps32*s*s) {
				c.Failf("Dot %v %v = %v", a, b, ga.Dot(gb))
			}
			if !near(float64(ga.Len()), a.len(), 8*eps32*s) || !near(float64(ga.LenSqr()), a.dot(a), 16*eps32*s*s) {
				c.Failf("Len %v = %v", a, ga.Len())
			}
			if *ga != *a.g() || *gb != *b.g() {
				c.Failf("operand modified")
			}
			if l := a.len(); l > 1e-12 {
				u := a.g()
				ret := u.Normalize()
				if ret != u {
					c.Failf("Normalize is documented to work in place")
				}
				if v3(ret).dist(a.unit()) > 1e-5 {
					c.Failf("Normalize %v = %v", a, *ret)
				}
			}
			arr := make([]float32, 3)
			ga.ToArray(arr)
			if *geom.NewVector3FromSlice(arr) != *ga || *geom.NewVector3FromArray([3]float32{arr[0], arr[1], arr[2]}) != *ga {
				c.Failf("array round trip")
			}
			// Vector2 / Vector4
			a2, b2 := geom.NewVector2(ga.X, ga.Y), geom.NewVector2(gb.X, gb.Y)
			if !near(float64(a2.Dot(b2)), a[0]*b[0]+a[1]*b[1], 16*eps32*s*s) ||
				!near(float64(a2.Cross(b2)), a[0]*b[1]-a[1]*b[0], 16*eps32*s*s) ||
				!near(float64(a2.Len()), math.Hypot(a[0], a[1]), 8*eps32*s) ||
				!near(float64(a2.LenSqr()), a[0]*a[0]+a[1]*a[1], 16*eps32*s*s) {
				c.Failf("Vector2 dot/cross/len %v %v", *a2, *b2)
			}
			if d := a2.Sub(b2); !near(float64(d.X), a[0]-b[0], tol) || !near(float64(d.Y), a[1]-b[1], tol) {
				c.Failf("Vector2 sub")
			}
			if d := a2.Add(b2); !near(float64(d.X), a[0]+b[0], tol) || !near(float64(d.Y), a[1]+b[1], tol) {
				c.Failf("Vector2 add")
			}
			if d := a2.Scale(float32(f)); !near(float64(d.X), a[0]*f, tol*(1+math.Abs(f))) || !near(float64(d.Y), a[1]*f, tol*(1+math.Abs(f))) {
				c.Failf("Vector2 scale")
			}
			if l := math.Hypot(a[0], a[1]); l > 1e-9 {
				u := geom.NewVector2(ga.X, ga.Y).Normalize()
				if !near(float64(u.X), a[0]/l, 1e-5) || !near(float64(u.Y), a[1]/l, 1e-5) {
					c.Failf("Vector2 normalize")
				}
			}
			w1, w2 := f32(c.R.NormFloat64()*s), f32(c.R.NormFloat64()*s)
			s4 := s + math.Abs(w1) + math.Abs(w2)
			a4, b4 := geom.NewVector4(ga.X, ga.Y, ga.Z, float32(w1)), geom.NewVector4(gb.X, gb.Y, gb.Z, float32(w2))
			chk4 := func(name string, g *geom.Vector4, w Q4, tol float64) {
				for i, d := range q4(g) {
					if !near(d, w[i], tol) {
						c.Failf("Vector4.%s %v %v = %v want %v", name, *a4, *b4, *g, w)
						return
					}
				}
			}
			chk4("Add", a4.Add(b4), Q4{a[0] + b[0], a[1] + b[1], a[2] + b[2], w1 + w2}, 8*eps32*s4)
			chk4("Sub", a4.Sub(b4), Q4{a[0] - b[0], a[1] - b[1], a[2] - b[2], w1 - w2}, 8*eps32*s4)
			chk4("Scale", a4.Scale(float32(f)), Q4{a[0] * f, a[1] * f, a[2] * f, w1 * f}, 8*eps32*s4*(1+math.Abs(f)))
			chk4("Hadamard", a4.HadamardProduct(b4), Q4{a[0] * b[0], a[1] * b[1], a[2] * b[2], w1 * w2}, 8*eps32*s4*s4)
			if !near(float64(a4.Dot(b4)), a.dot(b)+w1*w2, 16*eps32*s4*s4) || !near(float64(a4.Len()), math.Sqrt(a.dot(a)+w1*w1), 16*eps32*s4) ||
				!near(float64(a4.LenSqr()), a.dot(a)+w1*w1, 16*eps32*s4*s4) {
				c.Failf("Vector4 dot/len")
			}
			if q4(a4).len() > 1e-9 {
				u := q4(a4).unit()
				x := *a4
				chk4("Normalize", x.Normalize(), u, 1e-5)
			}
			// scalar helpers
			p, q := float32(a[0]), float32(b[0])
			if float64(geom.Abs(p)) != math.Abs(a[0]) || float64(geom.Min(p, q)) != math.Min(a[0], b[0]) || float64(geom.Max(p, q)) != math.Max(a[0], b[0]) {
				c.Failf("Abs/Min/Max %v %v", p, q)
			}
			c.Obs("vec")
			c.Sig("vec %.3g %.3g", a, b)
		}
		c.Sample("40 vector tuples")
	})

	r.Repeat("quat", 100*n, func(c *C) {
		for k := 0; k < 40; k++ {
			qa, qb := rquat(c.R), rquat(c.R)
			v := rv3(c.R, 10)
			got := v3(qa.g().ApplyTo(v.g()))
			want := mQuat(qa).apply(v)
			if !(got.dist(want) <= 1e-4) {
				c.Failf("quaternion %v applied to %v = %v want %v", qa, v, got, want)
			}
			// composition: (qa*qb) v = qa (qb v)
			ab := qa.g().Mul(qb.g())
			if d := v3(ab.ApplyTo(v.g())).dist(mQuat(qa).apply(mQuat(qb).apply(v))); !(d <= 1e-4) {
				c.Failf("quaternion product does not compose: %v %v d=%v", qa, qb, d)
			}
			if d := v3(qa.g().Inverse().ApplyTo(qa.g().ApplyTo(v.g()))).dist(v); !(d <= 1e-4) {
				c.Failf("inverse rotation does not undo: %v d=%v", qa, d)
			}
			if d := m4(geom.NewRotationMatrix4FromQuaternion(qa.g())).diff(mQuat(qa)); !(d <= 2e-6) {
				c.Failf("matrix of quaternion %v differs by %v", qa, d)
			}
			if a := geom.NewQuaternionFromArray([4]float32{float32(qa[0]), float32(qa[1]), float32(qa[2]), float32(qa[3])}); *a != *qa.g() {
				c.Failf("quaternion from array")
			}
			if a := geom.NewQuaternion(float32(qa[0]), float32(qa[1]), float32(qa[2]), float32(qa[3])); *a != *qa.g() {
				c.Failf("quaternion from components")
			}
			c.Obs("quat")
			c.Sig("q %.4f %.4f", qa, qb)
		}
	})

	checkEuler := func(c *C, o int, x, y, z float64) {
		ord := orders[o]
		e := geom.NewEuler(float32(x), float32(y), float32(z), ord.o)
		x, y, z = float64(e.X), float64(e.Y), float64(e.Z)
		want := mEuler(ord.s, x, y, z)
		q := e.ToQuaternion()
		if !near(q4(q).len(), 1, 1e-5) {
			c.Failf("euler %v %s: quaternion %v is not unit", e.Vector3, ord.s, *q)
		}
		if d := mQuat(q4(q)).diff(want); !(d <= 1e-5) {
			c.Failf("euler %v %s -> quaternion %v: rotation differs by %v", e.Vector3, ord.s, *q, d)
		}
		c.Obs("euler2mat")
		// back from quaternion and from matrix
		m := geom.NewRotationMatrix4FromQuaternion(q)
		for i, back := range []*geom.EulerAngles{geom.NewEulerFromQuaternion(q, ord.o), geom.NewEulerFromMatrix4(m, ord.o), geom.NewEulerFromMatrix4(want.g(), ord.o)} {
			if back.Order != ord.o {
				c.Failf("order lost")
			}
			var mid float64 // cosine of the middle angle decides the conditioning
			switch ord.s[1] {
			case 'X':
				mid = math.Cos(x)
			case 'Y':
				mid = math.Cos(y)
			}
			tol := 1e-5 + 40*eps32/math.Max(math.Abs(mid), 1e-9)
			if math.Abs(mid) < 5e-3 { // single precision cannot resolve the middle angle here
				tol = 6e-3
			}
			got := mEuler(ord.s, float64(back.X), float64(back.Y), float64(back.Z))
			if d := got.diff(want); !(d <= tol) {
				c.Failf("euler %v %s recovered (%d) as %v: rotation differs by %v (tol %v)", e.Vector3, ord.s, i, back.Vector3, d, tol)
			}
			c.Obs("mat2euler")
			if math.Abs(mid) < 1e-3 {
				c.Obs("gimbal")
			}
		}
		c.Sig("e%s %.3f %.3f %.3f", ord.s, x, y, z)
	}
	// exhaustive grid of 30 degree steps for all orders
	for o := range orders {
		o := o
		r.Case("eulergrid/"+orders[o].s, func(c *C) {
			for x := -12; x <= 12; x++ {
				for y := -12; y <= 12; y++ {
					for z := -12; z <= 12; z++ {
						checkEuler(c, o, float64(x)*math.Pi/12, float64(y)*math.Pi/12, float64(z)*math.Pi/12)
					}
				}
			}
			c.Sample(fmt.Sprintf("order %s, 15 degree grid 25^3", orders[o].s))
		})
	}
	r.Repeat("euler", 50*n, func(c *C) {
		for k := 0; k < 40; k++ {
			a := [3]float64{c.R.NormFloat64() * 2, c.R.NormFloat64() * 2, c.R.NormFloat64() * 2}
			if c.R.Intn(4) == 0 {
				i := c.R.Intn(3)
				a[i] = math.Pi/2*float64(c.R.Intn(5)-2) + c.R.NormFloat64()*math.Pow(10, -1-6*c.R.Float64())
			}
			checkEuler(c, c.R.Intn(4), a[0], a[1], a[2])
		}
	})

	randM := func(c *C, kind int) M4 {
		switch kind {
		case 0: // TRS
			s := V3{}
			for i := range s {
				s[i] = math.Pow(10, c.R.Float64()*2-1)
				if c.R.Intn(4) == 0 {
					s[i] = -s[i]
				}
			}
			return m4(mTRS(rv3(c.R, 50), rquat(c.R), s).g())
		case 1: // affine with shear
			var m M4 = ident
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					m[i*4+j] = c.R.NormFloat64()
				}
			}
			t := rv3(c.R, 10)
			m[12], m[13], m[14] = t[0], t[1], t[2]
			return m4(m.g())
		default:
			var m M4
			for i := range m {
				m[i] = c.R.NormFloat64()
			}
			return m4(m.g())
		}
	}
	r.Repeat("mat", 150*n, func(c *C) {
		for k := 0; k < 40; k++ {
			kind := c.R.Intn(3)
			a, b := randM(c, kind), randM(c, c.R.Intn(3))
			ga, gb := a.g(), b.g()
			prod := ga.Mul(gb)
			w, bound := a.mul(b), a.absmul(b)
			for i := range w {
				if !near(float64(prod[i]), w[i], 16*eps32*bound[i]+1e-30) {
					c.Failf("matrix product element %d: %v want %v", i, prod[i], w[i])
					break
				}
			}
			v := rv3(c.R, 10)
			if kind != 2 {
				if d := v3(ga.ApplyTo(v.g())).dist(a.apply(v)); !(d <= 64*eps32*(a.norm()*(1+v.len()))) {
					c.Failf("matrix applied to %v off by %v", v, d)
				}
			}
			for i := range a {
				f := float32(1.5)
				if !near(float64(ga.Add(gb)[i]), a[i]+b[i], 4*eps32*(math.Abs(a[i])+math.Abs(b[i]))) ||
					!near(float64(ga.Sub(gb)[i]), a[i]-b[i], 4*eps32*(math.Abs(a[i])+math.Abs(b[i]))) ||
					!near(float64(ga.Scale(f)[i]), a[i]*1.5, 4*eps32*math.Abs(a[i])*1.5) {
					c.Failf("matrix add/sub/scale element %d", i)
				}
			}
			if m4(ga.Transposed()) != a.transpose() {
				c.Failf("transposed")
			}
			c.Obs("matmul")
			inv, det := a.inverse()
			cond := a.norm() * inv.norm()
			if det != 0 && cond < 3e3 {
				dt := 1.0
				for i := 0; i < 4; i++ { // Hadamard bound for the rounding of det
					dt *= V3{a[i*4], a[i*4+1], a[i*4+2]}.len() + math.Abs(a[i*4+3])
				}
				if !near(float64(ga.Det()), det, 64*eps32*dt) {
					c.Failf("det=%v want %v", ga.Det(), det)
				}
				if math.Abs(det) > 1e3*eps32*dt {
					gi := m4(ga.Inverse())
					tol := 64 * eps32 * cond * inv.norm() * math.Max(1, dt/math.Abs(det)/50)
					if d := gi.diff(inv); !(d <= tol) {
						c.Failf("inverse of %v off by %v (tol %v, cond %v)", a, d, tol, cond)
					}
					c.Obs("inverse")
				}
			}
			if *ga != *a.g() || *gb != *b.g() {
				c.Failf("matrix operand modified")
			}
			cl := ga.Clone()
			cl[0]++
			if *ga != *a.g() {
				c.Failf("clone aliases the original")
			}
			arr := make([]float32, 16)
			ga.ToArray(arr)
			if *geom.NewMatrix4FromSlice(arr) != *ga {
				c.Failf("matrix array round trip")
			}
			c.Sig("m%d %.3g %.3g", kind, a[:3], b[:3])
		}
	})
	r.Case("singular", func(c *C) {
		m := geom.NewScaleMatrix4(1, 0, 1)
		if *m.Inverse() != (geom.Matrix4{}) || m.Det() != 0 {
			c.Failf("a singular matrix must report det 0 and a zero inverse")
		}
		if *geom.NewMatrix4() != *ident.g() {
			c.Failf("identity")
		}
	})

	r.Repeat("trs", 100*n, func(c *C) {
		for k := 0; k < 40; k++ {
			t := rv3(c.R, 100)
			q := rquat(c.R)
			switch c.R.Intn(4) {
			case 0: // half turns and near half turns: the trace<=0 branches
				ax := rv3(c.R, 1).unit()
				if c.R.Intn(2) == 0 {
					ax = V3{}
					ax[c.R.Intn(3)] = 1
				}
				w := c.R.NormFloat64() * math.Pow(10, -8*c.R.Float64())
				q = q4(Q4{ax[0], ax[1], ax[2], w}.unit().g())
				c.Obs("halfturn")
			case 1:
				q = qAxis(c.R.Intn(3), math.Pi/2*float64(c.R.Intn(4)))
			}
			s := V3{}
			mirrored := 0
			unit := 1.0
			if c.R.Intn(3) == 0 { // models in other units
				unit = math.Pow(10, c.R.Float64()*6-4)
			}
			for i := range s {
				s[i] = f32(math.Pow(10, c.R.Float64()*2-1) * unit)
				if c.R.Intn(4) == 0 {
					s[i] = -s[i]
					mirrored++
				}
			}
			if mirrored > 0 {
				c.Obs("mirrored")
			}
			want := mTRS(t, q, s)
			m := geom.NewTRSMatrix4(t.g(), q.g(), s.g())
			scale := s.maxAbs()
			// the translation row carries no rotation error
			if d := m4(m).diff(want); !(d <= 32*eps32*(scale+1)+8*eps32*t.maxAbs()) {
				c.Failf("TRS(%v,%v,%v) off by %v", t, q, s, d)
			}
			// the inverse undoes the transform, whatever the units
			inv := m4(m.Inverse())
			ref, _ := want.inverse()
			lin, mn := 0.0, math.Min(math.Abs(s[0]), math.Min(math.Abs(s[1]), math.Abs(s[2])))
			for i := 0; i < 12; i++ {
				lin = math.Max(lin, math.Abs(ref[i]))
			}
			cond := scale / mn
			for i := range ref {
				tol := 64 * eps32 * cond * cond
				if i < 12 {
					tol *= lin
				} else if i < 15 {
					tol *= lin * (1 + t.maxAbs())
				}
				if !near(inv[i], ref[i], tol) {
					c.Failf("inverse of TRS(%v,%v,%v) element %d is %v, want %v (tolerance %v)", t, q, s, i, inv[i], ref[i], tol)
					break
				}
			}
			c.Obs("inverse_trs")
			dt, dr, ds := m.Decompose()
			if !near(q4(dr).len(), 1, 2e-4) {
				c.Failf("decomposed rotation %v is not unit (t=%v q=%v s=%v)", *dr, t, q, s)
			}
			// recomposition must give the same transform: column by column relative error
			rec := mTRS(v3(dt), q4(dr), v3(ds))
			for col := 0; col < 3; col++ {
				a := V3{rec[col*4], rec[col*4+1], rec[col*4+2]}
				b := V3{want[col*4], want[col*4+1], want[col*4+2]}
				if !(a.dist(b) <= 1e-3*b.len()) {
					c.Failf("decompose(t=%v q=%v s=%v) = %v %v %v recomposes column %d to %v want %v", t, q, s, *dt, *dr, *ds, col, a, b)
					break
				}
			}
			if v3(dt) != t {
				c.Failf("decomposed translation %v want %v", *dt, t)
			}
			if mirrored == 0 {
				for i := range s {
					if !near(v3(ds)[i], s[i], 1e-4*s[i]) {
						c.Failf("decomposed scale %v want %v", *ds, s)
						break
					}
				}
			}
			c.Obs("decompose")
			k1 := f32(c.R.Float64() * 10)
			ts := m4(m.TranslationScale(float32(k1)))
			sw := mScale(V3{k1, k1, k1})
			si := mScale(V3{1 / k1, 1 / k1, 1 / k1})
			if k1 > 1e-3 {
				if d := ts.diff(sw.mul(m4(m)).mul(si)); !(d <= 64*eps32*(1+t.maxAbs()*k1+scale)) {
					c.Failf("unit-changed transform off by %v", d)
				}
			}
			if m4(geom.NewTranslateMatrix4(float32(t[0]), float32(t[1]), float32(t[2]))) != mTranslate(t) ||
				m4(geom.NewScaleMatrix4(float32(s[0]), float32(s[1]), float32(s[2]))) != mScale(s) {
				c.Failf("translate/scale matrix")
			}
			c.Sig("trs %.2f %.3f %.2f", t, q, s)
		}
	})
}

// ------------------------------------------------------------ polygons

type poly2 [][2]float64

func (p poly2) area() float64 {
	s := 0.0
	for i := range p {
		j := (i + 1) % len(p)
		s += p[i][0]*p[j][1] - p[i][1]*p[j][0]
	}
	return s / 2
}

func segX(a, b, c, d [2]float64) bool {
	cr := func(o, p, q [2]float64) float64 { return (p[0]-o[0])*(q[1]-o[1]) - (p[1]-o[1])*(q[0]-o[0]) }
	on := func(p, q, x [2]float64) bool {
		return math.Min(p[0], q[0]) <= x[0] && x[0] <= math.Max(p[0], q[0]) && math.Min(p[1], q[1]) <= x[1] && x[1] <= math.Max(p[1], q[1])
	}
	d1, d2, d3, d4 := cr(a, b, c), cr(a, b, d), cr(c, d, a), cr(c, d, b)
	if ((d1 > 0) != (d2 > 0)) && ((d3 > 0) != (d4 > 0)) && d1 != 0 && d2 != 0 && d3 != 0 && d4 != 0 {
		return true
	}
	return d1 == 0 && on(a, b, c) || d2 == 0 && on(a, b, d) || d3 == 0 && on(c, d, a) || d4 == 0 && on(c, d, b)
}

func (p poly2) simple() bool {
	n := len(p)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if p[i] == p[j] {
				return false
			}
			if j == i+1 || (i == 0 && j == n-1) {
				continue
			}
			if segX(p[i], p[(i+1)%n], p[j], p[(j+1)%n]) {
				return false
			}
		}
	}
	return true
}

func triCases(r *Run) {
	n := r.N(8, 80)
	run := func(c *C, fam string, p poly2, scale float64, axisAligned bool) {
		if len(p) >= 4 && !p.simple() {
			c.Obs("rejected_nonsimple")
			return
		}
		A := p.area()
		if math.Abs(A) < 1e-9 {
			return
		}
		conc := 0
		for i := range p {
			a, b, d := p[(i+len(p)-1)%len(p)], p[i], p[(i+1)%len(p)]
			if ((b[0]-a[0])*(d[1]-b[1])-(b[1]-a[1])*(d[0]-b[0]))*A < 0 {
				conc++
			}
		}
		if conc > 0 {
			c.Obs("concave_vertices")
		}
		if c.R.Intn(2) == 0 {
			for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
				p[i], p[j] = p[j], p[i]
			}
		}
		rot := c.R.Intn(len(p))
		p = append(append(poly2{}, p[rot:]...), p[:rot]...)
		m := ident
		if !axisAligned {
			m = mTranslate(rv3(c.R, scale)).mul(mQuat(rquat(c.R)))
		} else {
			perm := c.R.Intn(3)
			m = mQuat(Q4{0, 0, 0, 1})
			if perm == 1 {
				m = M4{0, 1, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 1}
			} else if perm == 2 {
				m = M4{0, 0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1}
			}
		}
		var gp []*geom.Vector3
		var vp []V3
		for _, q := range p {
			v := m.apply(V3{q[0] * scale, q[1] * scale, 0})
			gp = append(gp, v.g())
			vp = append(vp, v3(v.g()))
		}
		tris := geom.Triangulate(gp)
		for i := range gp {
			if v3(gp[i]) != vp[i] {
				c.Failf("%s: the polygon was modified", fam)
			}
		}
		if len(tris) != len(p)-2 {
			c.Fatalf("%s n=%d: %d triangles, want n-2", fam, len(p), len(tris))
		}
		area := V3{}
		for i := range vp {
			area = area.add(vp[i].sub(vp[0]).cross(vp[(i+1)%len(vp)].sub(vp[0])))
		}
		total := area.len()
		nrm := area.unit()
		sum := 0.0
		edges := map[[2]int]int{}
		// rounding of the vertices bounds how far a degenerate triangle can flip
		var ext float64
		for i := range vp {
			ext = math.Max(ext, vp[i].sub(vp[0]).maxAbs()+vp[i].maxAbs()*0.5)
		}
		tol := 40 * eps32 * ext * ext
		for _, t := range tris {
			for k := 0; k < 3; k++ {
				if t[k] < 0 || t[k] >= len(p) {
					c.Fatalf("%s: index %d out of range", fam, t[k])
				}
				edges[[2]int{t[k], t[(k+1)%3]}]++
			}
			if t[0] == t[1] || t[1] == t[2] || t[2] == t[0] {
				c.Failf("%s: degenerate triangle %v", fam, t)
			}
			ta := vp[t[1]].sub(vp[t[0]]).cross(vp[t[2]].sub(vp[t[0]])).dot(nrm)
			if ta < -tol {
				c.Failf("%s n=%d: triangle %v is flipped (2*area %v of %v) polygon %v", fam, len(p), t, ta, total, p)
			}
			sum += math.Abs(ta)
		}
		if !near(sum, total, 1e-4*total+float64(len(p))*tol) {
			c.Failf("%s n=%d: triangles cover %v, polygon %v", fam, len(p), sum, total)
		}
		// the triangulation's boundary is the polygon's boundary
		for i := range p {
			e := [2]int{i, (i + 1) % len(p)}
			if edges[e]-edges[[2]int{e[1], e[0]}] != 1 {
				c.Failf("%s n=%d: boundary edge %v occurs %d times", fam, len(p), e, edges[e])
				break
			}
		}
		for e, k := range edges {
			if (e[1] == (e[0]+1)%len(p)) || (e[0] == (e[1]+1)%len(p)) {
				continue
			}
			if edges[[2]int{e[1], e[0]}] != k {
				c.Failf("%s: inner edge %v is not shared", fam, e)
				break
			}
		}
		c.Obs(fam)
		if len(p) <= 4 {
			c.Obs("tiny")
		}
		c.ObsN("triangles", len(tris))
		c.Sig("%s %d %.4f %.4f", fam, len(p), p[0], p[len(p)/2])
		c.Sample(fmt.Sprintf("%s polygon with %d vertices, %d concave", fam, len(p), conc))
	}
	scaleOf := func(c *C) float64 { return math.Pow(10, c.R.Float64()*4-1) }
	r.Repeat("convex", 150*n, func(c *C) {
		k := 3 + c.R.Intn(20)
		var p poly2
		for i := 0; i < k; i++ {
			a := 2 * math.Pi * (float64(i) + c.R.Float64()*0.8) / float64(k)
			p = append(p, [2]float64{math.Cos(a), math.Sin(a) * 0.7})
		}
		run(c, "convex", p, scaleOf(c), false)
	})
	r.Repeat("star", 250*n, func(c *C) {
		k := 3 + c.R.Intn(12)
		inner := 0.15 + c.R.Float64()*0.7
		var p poly2
		for i := 0; i < 2*k; i++ {
			a := math.Pi * float64(i) / float64(k)
			rad := 1.0
			if i%2 == 1 {
				rad = inner
			}
			p = append(p, [2]float64{math.Cos(a) * rad, math.Sin(a) * rad})
		}
		run(c, "star", p, scaleOf(c), c.R.Intn(2) == 0)
	})
	r.Repeat("radial", 250*n, func(c *C) {
		k := 4 + c.R.Intn(30)
		var p poly2
		for i := 0; i < k; i++ {
			a := 2 * math.Pi * (float64(i) + c.R.Float64()*0.6) / float64(k)
			rad := 0.2 + c.R.Float64()
			p = append(p, [2]float64{math.Cos(a) * rad, math.Sin(a) * rad})
		}
		run(c, "radial", p, scaleOf(c), false)
	})
	r.Repeat("comb", 100*n, func(c *C) {
		k := 1 + c.R.Intn(8)
		p := poly2{{0, 0}, {float64(2*k + 1), 0}}
		for i := 2 * k; i >= 0; i-- {
			h := 1.0 + 3*float64((i+1)%2) + c.R.Float64()*0.3
			p = append(p, [2]float64{float64(i) + 0.9, h}, [2]float64{float64(i) + 0.05*c.R.Float64(), h})
		}
		p = p[:len(p)-1]
		p = append(p, [2]float64{0, 4})
		run(c, "comb", p, scaleOf(c), c.R.Intn(2) == 0)
	})
	r.Repeat("spiral", 100*n, func(c *C) {
		k := 8 + c.R.Intn(30)
		var in, out poly2
		turns := 1 + c.R.Float64()*2
		for i := 0; i < k; i++ {
			t := float64(i) / float64(k-1)
			a := t * turns * 2 * math.Pi
			rad := 1 + t*turns*2
			out = append(out, [2]float64{math.Cos(a) * (rad + 0.6), math.Sin(a) * (rad + 0.6)})
			in = append(in, [2]float64{math.Cos(a) * rad, math.Sin(a) * rad})
		}
		p := append(poly2{}, out...)
		for i := len(in) - 1; i >= 0; i-- {
			p = append(p, in[i])
		}
		run(c, "spiral", p, scaleOf(c), false)
	})
	// rectilinear outlines of random cell unions: many collinear and touching vertices
	r.Repeat("grid", 300*n, func(c *C) {
		p := gridOutline(c)
		if p == nil {
			return
		}
		s := float64(int(1) << uint(c.R.Intn(6)))
		run(c, "grid", p, s, true)
	})
	r.Repeat("random", 300*n, func(c *C) {
		// grow a simple polygon by inserting points into edges
		p := poly2{{0, 0}, {1, 0}, {0.4, 1}}
		want := 4 + c.R.Intn(20)
		for try := 0; try < 400 && len(p) < want; try++ {
			i := c.R.Intn(len(p))
			q := [2]float64{c.R.Float64()*2 - 0.5, c.R.Float64()*2 - 0.5}
			np := append(append(append(poly2{}, p[:i+1]...), q), p[i+1:]...)
			if np.simple() && wellSeparated(np) {
				p = np
			}
		}
		run(c, "random", p, scaleOf(c), false)
	})
	r.Case("fewer-than-3", func(c *C) {
		for k := 0; k < 3; k++ {
			p := make([]*geom.Vector3, k)
			for i := range p {
				p[i] = geom.NewVector3(float32(i), 0, 0)
			}
			if t := geom.Triangulate(p); len(t) != 0 {
				c.Failf("%d vertices give %d triangles", k, len(t))
			}
		}
	})
}

// wellSeparated keeps vertices away from foreign edges so float32 rounding
// cannot turn a simple polygon into a self-touching one.
func wellSeparated(p poly2) bool {
	n := len(p)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			k := (j + 1) % n
			if i == j || i == k {
				continue
			}
			if segDist(p[i], p[j], p[k]) < 2e-3 {
				return false
			}
		}
	}
	return true
}

func segDist(x, a, b [2]float64) float64 {
	dx, dy := b[0]-a[0], b[1]-a[1]
	t := ((x[0]-a[0])*dx + (x[1]-a[1])*dy) / (dx*dx + dy*dy)
	t = math.Max(0, math.Min(1, t))
	return math.Hypot(x[0]-a[0]-t*dx, x[1]-a[1]-t*dy)
}

// gridOutline returns the outer outline (unit steps or merged) of a random
// simply connected union of grid cells.
func gridOutline(c *C) poly2 {
	const N = 6
	var g [N + 2][N + 2]bool
	x, y := 1+c.R.Intn(N), 1+c.R.Intn(N)
	g[x][y] = true
	cells := [][2]int{{x, y}}
	for k := 0; k < 3+c.R.Intn(14); k++ {
		s := cells[c.R.Intn(len(cells))]
		d := [][2]int{{1, 0}, {-1, 0}, {0, 1}, {0, -1}}[c.R.Intn(4)]
		nx, ny := s[0]+d[0], s[1]+d[1]
		if nx < 1 || ny < 1 || nx > N || ny > N || g[nx][ny] {
			continue
		}
		g[nx][ny] = true
		cells = append(cells, [2]int{nx, ny})
	}
	// directed boundary edges, interior on the left
	next := map[[2]int][][2]int{}
	cnt := 0
	add := func(a, b [2]int) { next[a] = append(next[a], b); cnt++ }
	for x := 1; x <= N; x++ {
		for y := 1; y <= N; y++ {
			if !g[x][y] {
				continue
			}
			if !g[x][y-1] {
				add([2]int{x, y}, [2]int{x + 1, y})
			}
			if !g[x+1][y] {
				add([2]int{x + 1, y}, [2]int{x + 1, y + 1})
			}
			if !g[x][y+1] {
				add([2]int{x + 1, y + 1}, [2]int{x, y + 1})
			}
			if !g[x-1][y] {
				add([2]int{x, y + 1}, [2]int{x, y})
			}
		}
	}
	for _, v := range next {
		if len(v) != 1 {
			return nil // pinch point: not simple
		}
	}
	start := [2]int{x, y}
	best := [2]int{99, 99}
	for k := range next {
		if k[0] < best[0] || k[0] == best[0] && k[1] < best[1] {
			best = k
		}
	}
	start = best
	cur := start
	var pts [][2]int
	for {
		pts = append(pts, cur)
		cur = next[cur][0]
		if cur == start {
			break
		}
	}
	if len(pts) != cnt {
		return nil // has a hole
	}
	keepCollinear := c.R.Intn(3) != 0
	var p poly2
	for i := range pts {
		a, b, d := pts[(i+len(pts)-1)%len(pts)], pts[i], pts[(i+1)%len(pts)]
		if !keepCollinear && (b[0]-a[0])*(d[1]-b[1]) == (b[1]-a[1])*(d[0]-b[0]) {
			continue
		}
		p = append(p, [2]float64{float64(b[0]), float64(b[1])})
	}
	return p
}
