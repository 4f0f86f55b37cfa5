package main

// Independent float64 reference geometry used by the oracles.

import (
	"math"
	"math/rand"

	"github.com/binzume/modelconv/geom"
)

type V3 [3]float64
type Q4 [4]float64 // x y z w
type M4 [16]float64

const eps32 = 1.0 / (1 << 23)

func v3(v *geom.Vector3) V3    { return V3{float64(v.X), float64(v.Y), float64(v.Z)} }
func q4(q *geom.Quaternion) Q4 { return Q4{float64(q.X), float64(q.Y), float64(q.Z), float64(q.W)} }
func (v V3) g() *geom.Vector3 {
	return &geom.Vector3{X: float32(v[0]), Y: float32(v[1]), Z: float32(v[2])}
}
func (q Q4) g() *geom.Quaternion {
	return &geom.Quaternion{X: float32(q[0]), Y: float32(q[1]), Z: float32(q[2]), W: float32(q[3])}
}
func m4(m *geom.Matrix4) (r M4) {
	for i := range r {
		r[i] = float64(m[i])
	}
	return
}
func (m M4) g() *geom.Matrix4 {
	r := &geom.Matrix4{}
	for i := range r {
		r[i] = float32(m[i])
	}
	return r
}

func (a V3) add(b V3) V3      { return V3{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a V3) sub(b V3) V3      { return V3{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a V3) mul(s float64) V3 { return V3{a[0] * s, a[1] * s, a[2] * s} }
func (a V3) dot(b V3) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a V3) len() float64     { return math.Sqrt(a.dot(a)) }
func (a V3) maxAbs() float64 {
	return math.Max(math.Abs(a[0]), math.Max(math.Abs(a[1]), math.Abs(a[2])))
}
func (a V3) cross(b V3) V3 {
	return V3{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func (a V3) dist(b V3) float64 { return a.sub(b).len() }
func (a V3) unit() V3 {
	l := a.len()
	if l == 0 {
		return a
	}
	return a.mul(1 / l)
}

var ident = M4{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}

// mul returns a*b for column-major matrices acting on column vectors.
func (a M4) mul(b M4) (r M4) {
	for c := 0; c < 4; c++ {
		for w := 0; w < 4; w++ {
			s := 0.0
			for k := 0; k < 4; k++ {
				s += a[k*4+w] * b[c*4+k]
			}
			r[c*4+w] = s
		}
	}
	return
}
func (a M4) absmul(b M4) (r M4) {
	for c := 0; c < 4; c++ {
		for w := 0; w < 4; w++ {
			s := 0.0
			for k := 0; k < 4; k++ {
				s += math.Abs(a[k*4+w] * b[c*4+k])
			}
			r[c*4+w] = s
		}
	}
	return
}
func (a M4) apply(v V3) V3 {
	return V3{
		a[0]*v[0] + a[4]*v[1] + a[8]*v[2] + a[12],
		a[1]*v[0] + a[5]*v[1] + a[9]*v[2] + a[13],
		a[2]*v[0] + a[6]*v[1] + a[10]*v[2] + a[14],
	}
}
func (a M4) applyDir(v V3) V3 {
	return V3{
		a[0]*v[0] + a[4]*v[1] + a[8]*v[2],
		a[1]*v[0] + a[5]*v[1] + a[9]*v[2],
		a[2]*v[0] + a[6]*v[1] + a[10]*v[2],
	}
}
func (a M4) transpose() (r M4) {
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			r[i*4+j] = a[j*4+i]
		}
	}
	return
}
func (a M4) norm() float64 {
	s := 0.0
	for _, v := range a {
		s += v * v
	}
	return math.Sqrt(s)
}
func (a M4) diff(b M4) float64 {
	m := 0.0
	for i := range a {
		d := math.Abs(a[i] - b[i])
		if math.IsNaN(d) {
			return math.Inf(1)
		}
		m = math.Max(m, d)
	}
	return m
}

// inverse by Gauss-Jordan elimination with partial pivoting; also returns det.
func (a M4) inverse() (inv M4, det float64) {
	var w [4][8]float64
	for r := 0; r < 4; r++ {
		for c := 0; c < 4; c++ {
			w[r][c] = a[c*4+r]
		}
		w[r][4+r] = 1
	}
	det = 1
	for i := 0; i < 4; i++ {
		p := i
		for r := i + 1; r < 4; r++ {
			if math.Abs(w[r][i]) > math.Abs(w[p][i]) {
				p = r
			}
		}
		if w[p][i] == 0 {
			return M4{}, 0
		}
		if p != i {
			w[p], w[i] = w[i], w[p]
			det = -det
		}
		det *= w[i][i]
		d := w[i][i]
		for c := range w[i] {
			w[i][c] /= d
		}
		for r := 0; r < 4; r++ {
			if r != i {
				f := w[r][i]
				for c := range w[r] {
					w[r][c] -= f * w[i][c]
				}
			}
		}
	}
	for r := 0; r < 4; r++ {
		for c := 0; c < 4; c++ {
			inv[c*4+r] = w[r][4+c]
		}
	}
	return
}

func mTranslate(t V3) M4 {
	m := ident
	m[12], m[13], m[14] = t[0], t[1], t[2]
	return m
}
func mScale(s V3) M4 {
	m := ident
	m[0], m[5], m[10] = s[0], s[1], s[2]
	return m
}

// mAxis is a right-handed rotation by a around axis (0,1,2).
func mAxis(axis int, a float64) M4 {
	m := ident
	c, s := math.Cos(a), math.Sin(a)
	i, j := (axis+1)%3, (axis+2)%3
	m[i*4+i], m[j*4+j] = c, c
	m[i*4+j] = s
	m[j*4+i] = -s
	return m
}
func mQuat(q Q4) M4 {
	// Rodrigues form, deliberately not the expanded form used by the code
	var m M4 = ident
	for c := 0; c < 3; c++ {
		var e V3
		e[c] = 1
		u := V3{q[0], q[1], q[2]}
		w := q[3]
		n := q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]
		// v' = v + 2w(u x v) + 2 u x (u x v), normalised
		uv := u.cross(e)
		r := e.add(uv.mul(2 * w / n)).add(u.cross(uv).mul(2 / n))
		m[c*4], m[c*4+1], m[c*4+2] = r[0], r[1], r[2]
	}
	return m
}
func mTRS(t V3, q Q4, s V3) M4 { return mTranslate(t).mul(mQuat(q)).mul(mScale(s)) }

func qAxis(axis int, a float64) Q4 {
	var q Q4
	q[axis] = math.Sin(a / 2)
	q[3] = math.Cos(a / 2)
	return q
}
func (q Q4) unit() Q4 {
	n := math.Sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3])
	return Q4{q[0] / n, q[1] / n, q[2] / n, q[3] / n}
}
func (q Q4) len() float64 {
	return math.Sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3])
}

// euler composition: order string "XYZ" means M = Rx*Ry*Rz.
func mEuler(order string, x, y, z float64) M4 {
	m := ident
	for _, a := range order {
		switch a {
		case 'X':
			m = m.mul(mAxis(0, x))
		case 'Y':
			m = m.mul(mAxis(1, y))
		case 'Z':
			m = m.mul(mAxis(2, z))
		}
	}
	return m
}

func rv3(r *rand.Rand, s float64) V3 {
	return V3{f32((r.Float64()*2 - 1) * s), f32((r.Float64()*2 - 1) * s), f32((r.Float64()*2 - 1) * s)}
}
func f32(v float64) float64 { return float64(float32(v)) }
func rquat(r *rand.Rand) Q4 {
	for {
		q := Q4{r.NormFloat64(), r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}
		if q.len() > 0.1 {
			q = q.unit()
			return q4(q.g())
		}
	}
}
