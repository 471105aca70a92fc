//go:build !only || C13

package chk

import (
	"math"
	"math/rand"

	"verif/geo"
	"verif/run"

	. "github.com/l1va/goosli/primitives"
)

func init() {
	run.Register(&run.Property{ID: "C13", Level: "exploration", Quick: 8000, Full: 400000, Min: 4000,
		Must: []string{"facets compared", "meshes restored", "planes rotated", "vectors rotated", "shifts", "turns by a multiple of 90", "chains of rotations"},
		Rule: "a case is a mesh, a chain of rotations about X and Z around centres and shifts, and the opposite chain; and random planes and vectors with the same rotations; distinct by mesh and chain",
		Run:  c13})
}

type motion struct {
	axis int // 0 - X, 2 - Z, 3 - shift
	deg  float64
	c, d geo.V3
}

func (m motion) apply(p geo.V3) geo.V3 {
	if m.axis == 3 {
		return p.Add(m.d)
	}
	s, c := math.Sincos(m.deg * math.Pi / 180)
	q := p.Sub(m.c)
	if m.axis == 2 { // clockwise seen from the positive end of the axis
		q = geo.V3{q[0]*c + q[1]*s, -q[0]*s + q[1]*c, q[2]}
	} else {
		q = geo.V3{q[0], q[1]*c + q[2]*s, -q[1]*s + q[2]*c}
	}
	return q.Add(m.c)
}

func (m motion) back() motion { m.deg = -m.deg; m.d = m.d.Mul(-1); return m }

func (m motion) matrix() RotationMatrix {
	if m.axis == 2 {
		return RotationAroundZ(m.deg)
	}
	return RotationAroundX(m.deg)
}

func randMotion(r *rand.Rand, lim float64) motion {
	rv := func() geo.V3 {
		return geo.V3{lim * (2*r.Float64() - 1), lim * (2*r.Float64() - 1), lim * (2*r.Float64() - 1)}
	}
	m := motion{axis: run.Pick(r, 0, 2, 0, 2, 3), c: rv(), d: rv()}
	if r.Intn(3) == 0 {
		m.c = geo.V3{}
	}
	if r.Intn(3) == 0 { // short shifts
		m.d = m.d.Mul(math.Pow(10, -7*r.Float64()))
	}
	switch r.Intn(4) {
	case 0:
		m.deg = float64(90 * (r.Intn(9) - 4))
	case 1:
		m.deg = run.Pick(r, 60., -60, 30, 45, 180, 120)
	default:
		m.deg = 720 * (r.Float64() - 0.5)
	}
	return m
}

func moveMesh(m *Mesh, k motion) *Mesh {
	if k.axis == 3 {
		r := copyMesh(m)
		r.Shift(vec(k.d))
		return r
	}
	return m.Rotate(k.matrix(), pt(k.c))
}

func c13(c *run.Case) {
	r := c.R
	lim := run.Pick(r, 10., 100, 500)
	var m *Mesh
	closed := r.Intn(2) == 0
	if closed {
		m = toMesh(geo.RandomSolid(r, -1).Translate(geo.V3{lim * r.Float64(), lim * r.Float64(), lim * r.Float64()}))
	} else { // facets that have nothing in common
		var ts []Triangle
		for i, n := 0, r.Intn(60); i < n; i++ {
			var p [3]geo.V3
			for k := range p {
				p[k] = geo.V3{lim * (2*r.Float64() - 1), lim * (2*r.Float64() - 1), lim * (2*r.Float64() - 1)}
			}
			switch r.Intn(12) { // without area
			case 0:
				p[2] = p[1]
			case 1:
				p[2] = p[0].Add(p[1]).Mul(0.5)
			case 2:
				p[1], p[2] = p[0], p[0]
			}
			ts = append(ts, NewTriangle(pt(p[0]), pt(p[1]), pt(p[2])))
		}
		mm := NewMesh(ts)
		m = &mm
	}
	n := 1 + r.Intn(4)
	if n > 1 {
		c.Event("chains of rotations", 1)
	}
	var chain []motion
	for i := 0; i < n; i++ {
		chain = append(chain, randMotion(r, lim))
	}
	tol := 1e-11 * lim * float64(n+1)
	orig := copyMesh(m)
	want := tris(m)
	vol := geo.TrisVolume(want)
	cur := m
	for _, k := range chain {
		before := copyMesh(cur)
		next := moveMesh(cur, k)
		c.Check(sameMesh(before, cur), "the mesh given to a motion was modified")
		c.Check(next != nil && len(next.Triangles) == len(cur.Triangles), "motion %+v: other number of facets", k)
		if k.axis == 3 {
			c.Event("shifts", 1)
		} else if math.Mod(k.deg, 90) == 0 {
			c.Event("turns by a multiple of 90", 1)
		}
		for i := range want {
			for j := range want[i] {
				want[i][j] = k.apply(want[i][j])
			}
		}
		for i, t := range next.Triangles {
			got := [3]geo.V3{v3(t.P1), v3(t.P2), v3(t.P3)}
			for j := range got {
				c.Check(got[j].Dist(want[i][j]) <= tol, "motion %+v: vertex %d of facet %d is at %s, has to be at %s", k, j, i, vstr(got[j]), vstr(want[i][j]))
			}
			e1, e2 := got[1].Sub(got[0]), got[2].Sub(got[0])
			c.Check(vv3(t.N).Dist(e1.Cross(e2)) <= 1e-10*(1+e1.Len()*e2.Len()), "motion %+v: normal of facet %d is %s, edges give %s", k, i, vstr(vv3(t.N)), vstr(e1.Cross(e2)))
			c.Event("facets compared", 1)
		}
		cur = next
	}
	if closed {
		c.Check(near(geo.TrisVolume(tris(cur)), vol, 1e-9*math.Max(1, lim*lim*lim)), "volume changed from %v to %v", vol, geo.TrisVolume(tris(cur)))
	}
	for i := len(chain) - 1; i >= 0; i-- {
		cur = moveMesh(cur, chain[i].back())
	}
	for i, t := range tris(cur) {
		for j, p := range tris(orig)[i] {
			c.Check(t[j].Dist(p) <= 2*tol, "opposite motions do not restore facet %d: %s instead of %s (chain %+v)", i, vstr(t[j]), vstr(p), chain)
		}
	}
	c.Event("meshes restored", 1)
	if len(m.Triangles) > 0 {
		c.Distinct("%v %v", orig.Triangles[0], chain)
	}

	// planes: rotation of a plane and of its points
	for _, k := range chain {
		if k.axis == 3 {
			continue
		}
		k.c = geo.V3{}
		nv := geo.RandomDir(r).Mul(run.Pick(r, 1, 1, 0.1+5*r.Float64()))
		p := geo.V3{lim * r.Float64(), -lim * r.Float64(), lim * r.Float64()}
		pl := Plane{P: pt(p), N: vec(nv)}
		rp := pl.Rotate(k.matrix())
		c.Check(pl == (Plane{P: pt(p), N: vec(nv)}), "plane was modified")
		for i := 0; i < 4; i++ {
			q := p.Add(geo.RandomDir(r).Mul(lim))
			a, b := q.Sub(p).Dot(nv), k.apply(q).Sub(v3(rp.P)).Dot(vv3(rp.N))
			c.Check(near(a, b, 100*tol*(1+nv.Len())), "plane %v rotated by %+v: signed distance of a point changes from %v to %v", pl, k, a, b)
		}
		c.Check(v3(rp.P).Dist(k.apply(p)) <= tol && vv3(rp.N).Dist(k.apply(nv)) <= tol, "plane %v rotated by %+v is %v", pl, k, rp)
		rv := vec(nv).Rotate(k.matrix())
		c.Check(vv3(rv).Dist(k.apply(nv)) <= tol, "vector %v rotated by %+v is %v", nv, k, rv)
		c.Event("planes rotated", 1)
	}
	// vectors about any axis
	for i := 0; i < 5; i++ {
		a := geo.RandomDir(r).Mul(0.01 + lim*r.Float64())
		b := geo.RandomDir(r).Mul(run.Pick(r, 1, 0.01+lim*r.Float64()))
		switch r.Intn(6) {
		case 0:
			a = b.Mul(run.Pick(r, 1., -1, 2.5))
		case 1:
			b = run.Pick(r, geo.V3{1, 0, 0}, geo.V3{0, 1, 0}, geo.V3{0, 0, 1}, geo.V3{0, 0, -2})
		case 2: // of very different lengths
			a = a.Unit().Mul(math.Pow(10, 9*r.Float64()-6))
			b = b.Unit().Mul(math.Pow(10, 9*r.Float64()-6))
		}
		deg := run.Pick(r, 90, -90, 180, 60, 0, 720*(r.Float64()-0.5))
		got := vec(a).RotateAbout(vec(b), deg)
		w := geo.AxisAngle(b, deg).Apply(a)
		c.Check(vv3(got).Dist(w) <= 1e-9*a.Len(), "(%g %g %g) rotated about (%g %g %g) by %v is (%g %g %g), has to be (%g %g %g)", a[0], a[1], a[2], b[0], b[1], b[2], deg, got.X, got.Y, got.Z, w[0], w[1], w[2])
		c.Event("vectors rotated", 1)
	}
}
