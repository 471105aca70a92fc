// Package geo is the harness's own geometry: it never calls the code under
// test, so that every oracle built on it is independent of it.
package geo

import "math"

type V3 [3]float64

func (a V3) Add(b V3) V3             { return V3{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a V3) Sub(b V3) V3             { return V3{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a V3) Mul(s float64) V3        { return V3{a[0] * s, a[1] * s, a[2] * s} }
func (a V3) Dot(b V3) float64        { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a V3) Len() float64            { return math.Sqrt(a.Dot(a)) }
func (a V3) Dist(b V3) float64       { return a.Sub(b).Len() }
func (a V3) Lerp(b V3, t float64) V3 { return a.Add(b.Sub(a).Mul(t)) }
func (a V3) Cross(b V3) V3 {
	return V3{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func (a V3) Unit() V3 {
	l := a.Len()
	if l == 0 {
		return a
	}
	return a.Mul(1 / l)
}
func (a V3) Finite() bool {
	for _, c := range a {
		if math.IsNaN(c) || math.IsInf(c, 0) {
			return false
		}
	}
	return true
}

// SegDist is the distance from p to the segment ab.
func SegDist(p, a, b V3) float64 {
	d := b.Sub(a)
	l := d.Dot(d)
	if l == 0 {
		return p.Dist(a)
	}
	t := p.Sub(a).Dot(d) / l
	if t < 0 {
		t = 0
	} else if t > 1 {
		t = 1
	}
	return p.Dist(a.Add(d.Mul(t)))
}

// LineDist is the distance from p to the infinite line through a and b.
func LineDist(p, a, b V3) float64 {
	d := b.Sub(a)
	l := d.Len()
	if l == 0 {
		return p.Dist(a)
	}
	return p.Sub(a).Cross(d).Len() / l
}

// SegSegDist is the smallest distance between the segments ab and cd.
func SegSegDist(a, b, c, d V3) float64 {
	u, v, w := b.Sub(a), d.Sub(c), a.Sub(c)
	A, B, C, D, E := u.Dot(u), u.Dot(v), v.Dot(v), u.Dot(w), v.Dot(w)
	best := math.Min(math.Min(SegDist(a, c, d), SegDist(b, c, d)), math.Min(SegDist(c, a, b), SegDist(d, a, b)))
	den := A*C - B*B
	if den > 1e-12*A*C {
		s := (B*E - C*D) / den
		t := (A*E - B*D) / den
		if s >= 0 && s <= 1 && t >= 0 && t <= 1 {
			best = math.Min(best, a.Add(u.Mul(s)).Dist(c.Add(v.Mul(t))))
		}
	}
	return best
}

// Rot is a 3x3 matrix, row-major, applied to column vectors.
type Rot [3]V3

func (r Rot) Apply(v V3) V3 { return V3{r[0].Dot(v), r[1].Dot(v), r[2].Dot(v)} }
func (r Rot) T() Rot {
	var o Rot
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			o[i][j] = r[j][i]
		}
	}
	return o
}
func (r Rot) MulR(s Rot) Rot {
	t := s.T()
	var o Rot
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			o[i][j] = r[i].Dot(t[j])
		}
	}
	return o
}

// AxisAngle is the right-handed rotation about axis by deg degrees.
func AxisAngle(axis V3, deg float64) Rot {
	k := axis.Unit()
	th := deg * math.Pi / 180
	c, s := math.Cos(th), math.Sin(th)
	x, y, z := k[0], k[1], k[2]
	return Rot{
		{c + x*x*(1-c), x*y*(1-c) - z*s, x*z*(1-c) + y*s},
		{y*x*(1-c) + z*s, c + y*y*(1-c), y*z*(1-c) - x*s},
		{z*x*(1-c) - y*s, z*y*(1-c) + x*s, c + z*z*(1-c)},
	}
}

var Ident = Rot{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
