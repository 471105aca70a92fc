//go:build !only || C25

package chk

import (
	"math"

	"verif/geo"
	"verif/run"

	. "github.com/l1va/goosli/primitives"
)

func init() {
	run.Register(&run.Property{ID: "C25", Level: "exploration", Quick: 60000, Full: 3000000, Min: 40000,
		Must: []string{"segments crossed", "segments not crossed", "facets crossed", "facets not crossed", "facets on a grid", "facets with an edge in the plane", "facets with a vertex in the plane", "facets in the plane", "angles", "parallel vectors", "opposite vectors", "vectors projected", "points projected", "distances", "sides", "paths crossed", "vectors of different scales", "pairs of facets that cross", "pairs of facets that do not cross", "points of facets", "points beside facets", "common lines that are parallel to a side"},
		Rule: "a case is a handful of random or grid planes, points, vectors, facets and paths; distinct by the first plane and facet",
		Run:  c25})
}

func c25(c *run.Case) {
	r := c.R
	lim := run.Pick(r, 1., 10, 100, 1000)
	nv := geo.RandomDir(r).Mul(run.Pick(r, 1, 1, 0.1+3*r.Float64()))
	o := rndV(r, lim)
	pl := Plane{P: pt(o), N: vec(nv)}
	u := nv.Unit()
	dist := func(p geo.V3) float64 { return p.Sub(o).Dot(u) }
	tol := 1e-12 * lim * 10

	// segments
	for i := 0; i < 4; i++ {
		a, b := o.Add(rndV(r, lim)), o.Add(rndV(r, lim))
		da, db := dist(a), dist(b)
		if math.Abs(da) < 1e-9*lim || math.Abs(db) < 1e-9*lim || math.Abs(da-db) < 1e-6 {
			continue
		}
		got := pl.IntersectSegment(pt(a), pt(b))
		if (da > 0) == (db > 0) {
			c.Check(got == nil, "segment %s %s is on one side of the plane %v, but they intersect in %v", vstr(a), vstr(b), pl, got)
			c.Event("segments not crossed", 1)
		} else {
			c.Check(got != nil, "segment %s %s crosses the plane %v, but no intersection is found", vstr(a), vstr(b), pl)
			w := a.Lerp(b, da/(da-db))
			c.Check(v3(*got).Dist(w) <= 1e-9*lim*(1+a.Dist(b)/math.Abs(da-db)), "segment %s %s crosses the plane %v in %v, has to be in %s", vstr(a), vstr(b), pl, *got, vstr(w))
			c.Event("segments crossed", 1)
		}
	}
	// facets
	for i := 0; i < 4; i++ {
		f := [3]geo.V3{o.Add(rndV(r, lim)), o.Add(rndV(r, lim)), o.Add(rndV(r, lim))}
		if r.Intn(3) == 0 { // not far from the plane
			f[0] = o.Add(rndV(r, lim))
			f[1] = f[0].Add(rndV(r, lim/20))
			f[2] = f[0].Add(rndV(r, lim/20))
			sh := u.Mul(-dist(f[0]) + lim/40*(2*r.Float64()-1))
			for k := range f {
				f[k] = f[k].Add(sh)
			}
		}
		c25facet(c, pl, f, lim)
	}
	c25grid(c)

	// angles
	for i := 0; i < 4; i++ {
		a, b := rndV(r, lim), rndV(r, 1)
		if r.Intn(4) == 0 {
			b = a.Mul(run.Pick(r, 1., -1, 0.3, -0.3, 3*r.Float64()-1.5))
			if b.Len() < 1e-9*lim {
				continue
			}
		}
		va, vb := vec(a), vec(b)
		got := va.Angle(vb)
		want := math.Atan2(a.Cross(b).Len(), a.Dot(b)) * 180 / math.Pi
		c.Check(got >= 0 && got <= 180, "angle between %v and %v is %v", va, vb, got)
		c.Check(near(got, want, 3e-6), "angle between %v and %v is %v, has to be %v", va, vb, got, want)
		c.Check(near(vb.Angle(va), got, 3e-6), "angle is not symmetric: %v %v", got, vb.Angle(va))
		c.Check(near(va.Angle(vb.Reverse()), 180-got, 6e-6), "angle with the reversed vector is %v and not 180-%v", va.Angle(vb.Reverse()), got)
		c.Event("angles", 1)
		if want < 1e-7 {
			c.Event("parallel vectors", 1)
		} else if want > 180-1e-7 {
			c.Event("opposite vectors", 1)
		}
		if math.Hypot(a[0], a[1]) > 1e-9 {
			pa := va.PolarAngle()
			l := math.Hypot(a[0], a[1])
			c.Check(pa >= -180 && pa <= 180 && near(math.Cos(pa*math.Pi/180)*l, a[0], 1e-9*lim) && near(math.Sin(pa*math.Pi/180)*l, a[1], 1e-9*lim), "polar angle of %v is %v", va, pa)
		}
		// projections of vectors
		pr := vv3(va.ProjectOn(vb))
		c.Check(near(pr.Cross(b).Len(), 0, tol*lim) && near(a.Sub(pr).Dot(b), 0, tol*lim), "projection of %v on %v is %v", va, vb, pr)
		c.Check(vv3(vec(pr).ProjectOn(vb)).Dist(pr) <= tol, "projection on a vector is not idempotent")
		pp := vv3(va.ProjectOnPlane(pl))
		c.Check(near(pp.Dot(u), 0, tol) && near(a.Sub(pp).Cross(u).Len(), 0, tol), "projection of %v on the plane %v is %v", va, pl, pp)
		c.Check(vv3(vec(pp).ProjectOnPlane(pl)).Dist(pp) <= tol, "projection on a plane is not idempotent")
		c.Check(near(va.Normalize().Length(), 1, 1e-12) && va.Normalize().Angle(va) < 3e-6, "unit vector of %v is %v", va, va.Normalize())
		c.Check(near(va.Length(), a.Len(), tol), "length of %v is %v", va, va.Length())
		c.Check(va.CodirectedWith(vb) == (a.Dot(b) >= 0), "CodirectedWith %v %v", va, vb)
		c.Event("vectors projected", 1)
	}
	c25scaled(c)
	// points
	for i := 0; i < 4; i++ {
		p, a, b := rndV(r, lim), rndV(r, lim), rndV(r, lim)
		if r.Intn(5) == 0 {
			p = a.Lerp(b, 3*r.Float64()-1)
		}
		if a.Dist(b) < 0.01*lim {
			continue
		}
		q := v3(pt(p).ProjectOnLine(pt(a), pt(b)))
		e := b.Sub(a).Unit()
		w := a.Add(e.Mul(p.Sub(a).Dot(e)))
		c.Check(q.Dist(w) <= tol*10, "projection of %s on the line %s %s is %s, has to be %s", vstr(p), vstr(a), vstr(b), vstr(q), vstr(w))
		c.Check(v3(pt(q).ProjectOnLine(pt(a), pt(b))).Dist(q) <= tol*10, "projection on a line is not idempotent")
		c.Check(v3(pt(p).ProjectOnLine(pt(b), pt(a))).Dist(q) <= tol*100, "projection on a line depends on its direction")
		c.Check(near(pt(p).DistanceToLine(pt(a), pt(b)), p.Dist(w), tol*10), "distance of %s to the line %s %s is %v, has to be %v", vstr(p), vstr(a), vstr(b), pt(p).DistanceToLine(pt(a), pt(b)), p.Dist(w))
		c.Check(near(pt(p).DistanceTo(pt(a)), p.Dist(a), tol), "distance from %s to %s is %v", vstr(p), vstr(a), pt(p).DistanceTo(pt(a)))
		c.Check(near(Line{P1: pt(p), P2: pt(a)}.Len(), p.Dist(a), tol), "length of a line is %v", Line{P1: pt(p), P2: pt(a)}.Len())
		c.Event("distances", 1)
		g := v3(pl.ProectionPointToPlane(pt(p)))
		c.Check(near(dist(g), 0, tol*10) && near(g.Sub(p).Cross(u).Len(), 0, tol*10), "projection of %s on the plane %v is %s", vstr(p), pl, vstr(g))
		c.Check(v3(pl.ProectionPointToPlane(pt(g))).Dist(g) <= tol*10, "projection of a point on a plane is not idempotent")
		c.Event("points projected", 1)
		if d := dist(p); math.Abs(d) > tol {
			c.Check(pl.PointInFront(pt(p)) == (d > 0), "PointInFront is %v for a point at the distance %v of the plane", d <= 0, d)
			c.Event("sides", 1)
		}
		if r.Intn(4) == 0 { // a line moved along itself stays collinear, a turned one does not
			l1 := Line{P1: pt(a), P2: pt(b)}
			k := 0.1 + r.Float64()
			l2 := Line{P1: pt(b), P2: pt(b.Add(b.Sub(a).Mul(k)))}
			if lim <= 100 {
				c.Check(l1.IsCollinear(l2), "line %v is not collinear to its continuation %v", l1, l2)
			}
			side := geo.RandomDir(r).Cross(e).Unit()
			l3 := Line{P1: pt(b), P2: pt(b.Add(e.Mul(k)).Add(side.Mul(0.1)))}
			c.Check(!l1.IsCollinear(l3), "line %v is collinear to %v", l1, l3)
			c.Check(l1.Reverse().P1 == l1.P2 && l1.Reverse().P2 == l1.P1, "reversed line is %v", l1.Reverse())
		}
	}
	// a closed contour and a plane through its centroid: the crossing on the side asked for
	{
		f := randFrame(r, lim)
		poly := geo.ConvexPoly(r, 3+r.Intn(8), 3, 2+3*r.Float64())
		path := polyPath(f.loop(poly), true)
		cp := v3(FindCentroid(path))
		dir := f.u.Mul(math.Cos(1)).Add(f.v.Mul(math.Sin(1)))
		if k := r.Float64() * 6.28; true {
			dir = f.u.Mul(math.Cos(k)).Add(f.v.Mul(math.Sin(k)))
		}
		cut := Plane{P: pt(cp), N: vec(dir.Cross(f.n))}
		got := cut.IntersectPathCodirectedWith(path, vec(dir))
		c.Check(got != nil, "plane through the centroid of %v does not cross it", path.Points)
		g := v3(*got)
		d := math.Inf(1)
		for _, s := range pathSegs([]Path{path}) {
			d = math.Min(d, geo.SegDist(g, s.A, s.B))
		}
		c.Check(d <= 1e-9*lim && near(g.Sub(cp).Dot(dir.Cross(f.n)), 0, 1e-9*lim) && g.Sub(cp).Dot(dir) > 0,
			"crossing of %v by %v towards %s is %v", path.Points, cut, vstr(dir), got)
		c.Event("paths crossed", 1)
	}
	// extents
	t := NewTriangle(pt(rndV(r, lim)), pt(rndV(r, lim)), pt(rndV(r, lim)))
	h := []float64{v3(t.P1).Dot(nv), v3(t.P2).Dot(nv), v3(t.P3).Dot(nv)}
	lo, hi := math.Min(h[0], math.Min(h[1], h[2])), math.Max(h[0], math.Max(h[1], h[2]))
	a, b := t.MinMaxZ(vec(nv))
	c.Check(near(a, lo, tol*10) && near(b, hi, tol*10) && near(t.MinZ(vec(nv)), lo, tol*10) && near(t.MaxZ(vec(nv)), hi, tol*10), "extent of %v along %v is %v..%v, has to be %v..%v", t, nv, a, b, lo, hi)
	at := lo + (hi-lo)*(2*r.Float64()-0.5)
	if math.Abs(at-lo) > 1e-6 && math.Abs(at-hi) > 1e-6 {
		p := Plane{P: pt(nv.Mul(at / nv.Dot(nv))), N: vec(nv)}
		c.Check(p.Intersect(&t) == (at > lo && at < hi), "Intersect of the facet %v..%v and the plane at %v is %v", lo, hi, at, p.Intersect(&t))
	}
	c.Distinct("%v %v", pl, t)
	c25pair(c)
}

// two facets, and points of a facet
func c25pair(c *run.Case) {
	r := c.R
	lim := run.Pick(r, 1., 10, 100)
	o := rndV(r, lim)
	tri := func() [3]geo.V3 {
		return [3]geo.V3{o.Add(rndV(r, lim)), o.Add(rndV(r, lim)), o.Add(rndV(r, lim))}
	}
	f, g := tri(), tri()
	if r.Intn(3) == 0 { // a small one or a far one
		at, k := f[0].Lerp(f[1], r.Float64()).Lerp(f[2], r.Float64()), run.Pick(r, 0.05, 0.2, 1)
		for i := range g {
			g[i] = at.Add(g[i].Sub(o).Mul(k))
		}
	}
	if r.Intn(4) == 0 { // the common line is parallel to a side
		lim = 10
		a, b, ax := float64(1+r.Intn(9)), float64(1+r.Intn(9)), r.Intn(3)
		y := float64(r.Intn(12)-2) + 0.5
		x := func() float64 { return float64(r.Intn(20)-6) + 0.25 }
		f = [3]geo.V3{{0, 0, 0}, {a, 0, 0}, {0, b, 0}}
		g = [3]geo.V3{{x(), y, -1}, {x(), y, 1}, {x(), y, 2}}
		k := r.Intn(3)
		for _, t := range []*[3]geo.V3{&f, &g} {
			t[0], t[1], t[2] = t[k], t[(k+1)%3], t[(k+2)%3]
			for i := range t {
				t[i] = geo.V3{t[i][ax], t[i][(ax+1)%3], t[i][(ax+2)%3]}
			}
		}
		if r.Intn(2) == 0 {
			f[0], f[1] = f[1], f[0]
		}
		c.Event("common lines that are parallel to a side", 1)
	}
	nf, ng := f[1].Sub(f[0]).Cross(f[2].Sub(f[0])), g[1].Sub(g[0]).Cross(g[2].Sub(g[0]))
	if nf.Len() < 0.01*lim*lim || ng.Len() < 1e-5*lim*lim || nf.Unit().Cross(ng.Unit()).Len() < 0.02 {
		return
	}
	tf, tg := NewTriangle(pt(f[0]), pt(f[1]), pt(f[2])), NewTriangle(pt(g[0]), pt(g[1]), pt(g[2]))
	m := 1e-4 * lim
	// the line of both planes: points in every facet are an interval on it
	dir := nf.Cross(ng).Unit()
	span := func(f [3]geo.V3, n, o geo.V3) (lo, hi float64, p geo.V3, state int) { // 0 not crossed, 1 crossed, 2 unclear
		lo, hi = math.Inf(1), math.Inf(-1)
		u := n.Unit()
		for k := range f {
			a, b := f[k].Sub(o).Dot(u), f[(k+1)%3].Sub(o).Dot(u)
			if math.Abs(a) < m {
				return 0, 0, p, 2
			}
			if (a > 0) != (b > 0) {
				p = f[k].Lerp(f[(k+1)%3], a/(a-b))
				lo, hi = math.Min(lo, p.Dot(dir)), math.Max(hi, p.Dot(dir))
				state = 1
			}
		}
		return
	}
	a0, a1, _, sf := span(f, ng, g[0])
	b0, b1, p, sg := span(g, nf, f[0])
	if sf != 2 && sg != 2 {
		got := tf.IntersectTriangle(&tg)
		lo, hi := math.Max(a0, b0), math.Min(a1, b1)
		switch {
		case sf == 0 || sg == 0 || hi < lo-m:
			c.Check(got == nil, "facets %v and %v have no common points, but they intersect in %v", f, g, got)
			c.Event("pairs of facets that do not cross", 1)
		case hi > lo+m:
			c.Check(got != nil, "facets %v and %v intersect, but no intersection is found", f, g)
			x, y := v3(got.P1), v3(got.P2)
			if y.Sub(x).Dot(dir) < 0 {
				x, y = y, x
			}
			wx, wy := p.Add(dir.Mul(lo-p.Dot(dir))), p.Add(dir.Mul(hi-p.Dot(dir)))
			tol := 1e-6 * (1 + lim)
			c.Check(x.Dist(wx) < tol && y.Dist(wy) < tol, "facets %v and %v intersect in %s - %s, has to be %s - %s", f, g, vstr(x), vstr(y), vstr(wx), vstr(wy))
			c.Event("pairs of facets that cross", 1)
		}
	}
	// points
	var w [3]float64
	for k := range w {
		w[k] = 1.6*r.Float64() - 0.3
	}
	s := w[0] + w[1] + w[2]
	if math.Abs(s) < 0.2 {
		return
	}
	var q geo.V3
	in, clear := true, true
	for k := range w {
		w[k] /= s
		q = q.Add(f[k].Mul(w[k]))
		in = in && w[k] > 0
		clear = clear && math.Abs(w[k]) > 0.01
	}
	if !clear {
		return
	}
	tf.N = vec(nf.Mul(run.Pick(r, 1, 1/nf.Len())))
	c.Check(tf.PointBelongs(pt(q)) == in, "point %s is %v times the vertices of the facet %v, but PointBelongs is %v", vstr(q), w, f, !in)
	up := nf.Unit().Mul(m * 10 * (1 + r.Float64()) * run.Pick(r, 1., -1))
	off := Plane{P: tf.P2, N: tf.N}
	c.Check(off.PointBelongs(pt(q)) && !off.PointBelongs(pt(q.Add(up))), "point %s in the plane %v or the point %s above it is not right", vstr(q), off, vstr(q.Add(up)))
	c.Check(!tf.PointBelongs(pt(q.Add(up))), "point %s is %v from the facet %v, but it belongs to it", vstr(q.Add(up)), up.Len(), f)
	c.Check(tf.PointBelongs(pt(f[r.Intn(3)])), "a vertex does not belong to the facet %v", f)
	if in {
		c.Event("points of facets", 1)
	} else {
		c.Event("points beside facets", 1)
	}
}

// a facet in general position
func c25facet(c *run.Case, pl Plane, f [3]geo.V3, lim float64) {
	o, u := v3(pl.P), vv3(pl.N).Unit()
	var d [3]float64
	pos, neg := 0, 0
	for k := range f {
		d[k] = f[k].Sub(o).Dot(u)
		if math.Abs(d[k]) < 1e-4 {
			return
		}
		if d[k] > 0 {
			pos++
		} else {
			neg++
		}
	}
	n := f[1].Sub(f[0]).Cross(f[2].Sub(f[0]))
	if n.Len() < 1e-4*lim {
		return
	}
	t := NewTriangle(pt(f[0]), pt(f[1]), pt(f[2]))
	got := pl.IntersectTriangle(&t)
	if pos == 0 || neg == 0 {
		c.Check(got == nil, "facet %v is on one side of the plane %v, but they intersect in %v", t, pl, got)
		c.Event("facets not crossed", 1)
		return
	}
	var pts []geo.V3
	for k := range f {
		a, b := k, (k+1)%3
		if (d[a] > 0) != (d[b] > 0) {
			pts = append(pts, f[a].Lerp(f[b], d[a]/(d[a]-d[b])))
		}
	}
	if pts[0].Dist(pts[1]) < 1e-5 {
		return
	}
	c.Check(got != nil, "facet %v crosses the plane %v, but no intersection is found", t, pl)
	a, b := v3(got.P1), v3(got.P2)
	if b.Sub(a).Dot(pts[1].Sub(pts[0])) < 0 {
		pts[0], pts[1] = pts[1], pts[0]
	}
	tol := 2e-8 + 1e-12*lim*lim/1e-4
	c.Check(a.Dist(pts[0]) <= tol && b.Dist(pts[1]) <= tol, "facet %v crosses the plane %v along %v, has to be %s %s", t, pl, *got, vstr(pts[0]), vstr(pts[1]))
	if q := b.Sub(a).Cross(u).Dot(n.Unit()); math.Abs(q) > 1e-9*lim {
		c.Check(q < 0, "the line %v of the facet %v in the plane %v has the solid on the left", *got, t, pl)
	}
	c.Event("facets crossed", 1)
}

// facets with integer coordinates and a plane through grid points
func c25grid(c *run.Case) {
	r := c.R
	axis := r.Intn(3)
	sign := run.Pick(r, 1., -1)
	var nv geo.V3
	nv[axis] = sign * run.Pick(r, 1., 2)
	ri := func() float64 { return float64(r.Intn(9) - 4) }
	z := ri()
	var o geo.V3
	for k := range o {
		o[k] = ri()
	}
	o[axis] = z
	pl := Plane{P: pt(o), N: vec(nv)}
	var f [3]geo.V3
	for k := range f {
		f[k] = geo.V3{ri(), ri(), ri()}
	}
	for k := range f { // some of the vertices in the plane
		if r.Intn(2) == 0 {
			f[k][axis] = z
		}
	}
	n := f[1].Sub(f[0]).Cross(f[2].Sub(f[0]))
	if n.Len() == 0 {
		return
	}
	t := NewTriangle(pt(f[0]), pt(f[1]), pt(f[2]))
	got := pl.IntersectTriangle(&t)
	var up, down, in []geo.V3
	var cross []geo.V3
	for k := range f {
		h := (f[k][axis] - z) * sign
		switch {
		case h > 0:
			up = append(up, f[k])
		case h < 0:
			down = append(down, f[k])
		default:
			in = append(in, f[k])
		}
		g := f[(k+1)%3]
		hg := (g[axis] - z) * sign
		if h*hg < 0 {
			cross = append(cross, f[k].Lerp(g, h/(h-hg)))
		}
	}
	c.Event("facets on a grid", 1)
	var want []geo.V3
	switch {
	case len(in) == 3:
		c.Event("facets in the plane", 1)
	case len(in) == 2 && len(down) == 1: // the section just below the plane
		want = in
		c.Event("facets with an edge in the plane", 1)
	case len(in) == 2:
		c.Event("facets with an edge in the plane", 1)
	case len(in) == 1 && len(up) == 1 && len(down) == 1:
		want = []geo.V3{in[0], cross[0]}
		c.Event("facets with a vertex in the plane", 1)
	case len(in) == 1:
		c.Event("facets with a vertex in the plane", 1)
	case len(cross) == 2:
		want = cross
	}
	if want == nil {
		c.Check(got == nil, "the section just below the plane %v of the facet %v is empty, but the intersection is %v", pl, t, got)
		return
	}
	c.Check(got != nil, "facet %v crosses the plane %v, but no intersection is found", t, pl)
	a, b := v3(got.P1), v3(got.P2)
	c.Check(a.Dist(want[0]) <= 2e-8 && b.Dist(want[1]) <= 2e-8 || a.Dist(want[1]) <= 2e-8 && b.Dist(want[0]) <= 2e-8, "facet %v crosses the plane %v along %v, has to be %v", t, pl, *got, want)
	if q := b.Sub(a).Cross(nv).Dot(n); q != 0 {
		c.Check(q < 0, "the line %v of the facet %v in the plane %v has the solid on the left", *got, t, pl)
	}
}

// vectors of very different lengths; tolerances are relative
func c25scaled(c *run.Case) {
	r := c.R
	scale := func() float64 { return math.Pow(10, 16*r.Float64()-8) }
	a, b := geo.RandomDir(r).Mul(scale()), geo.RandomDir(r).Mul(scale())
	la, lb := a.Len(), b.Len()
	va, vb := vec(a), vec(b)
	c.Check(near(va.Length(), la, 1e-12*la) && near(va.LengthSquare(), la*la, 1e-12*la*la), "length of %g %g %g is %g, its square %g", a[0], a[1], a[2], va.Length(), va.LengthSquare())
	un := vv3(va.Normalize())
	c.Check(un.Dist(a.Mul(1/la)) <= 1e-12, "unit vector of %g %g %g is %v", a[0], a[1], a[2], un)
	cos := a.Dot(b) / la / lb
	w := b.Mul(cos * la / lb)
	pr := vv3(va.ProjectOn(vb))
	c.Check(pr.Dist(w) <= 1e-12*la, "projection of %g %g %g on %g %g %g is %g %g %g, has to be %g %g %g", a[0], a[1], a[2], b[0], b[1], b[2], pr[0], pr[1], pr[2], w[0], w[1], w[2])
	pp := vv3(va.ProjectOnPlane(Plane{P: pt(rndV(r, 10)), N: vb}))
	c.Check(pp.Dist(a.Sub(w)) <= 1e-12*la, "projection of %g %g %g on a plane with the normal %g %g %g is %g %g %g, has to be %v", a[0], a[1], a[2], b[0], b[1], b[2], pp[0], pp[1], pp[2], a.Sub(w))
	want := math.Atan2(a.Cross(b).Len(), a.Dot(b)) * 180 / math.Pi
	c.Check(near(va.Angle(vb), want, 3e-6), "angle between %g %g %g and %g %g %g is %v, has to be %v", a[0], a[1], a[2], b[0], b[1], b[2], va.Angle(vb), want)
	cr := vv3(va.Cross(vb))
	c.Check(near(cr.Dot(a), 0, 1e-12*la*la*lb) && near(cr.Dot(b), 0, 1e-12*la*lb*lb) && near(cr.Len(), la*lb*math.Sqrt(math.Max(0, 1-cos*cos)), 1e-7*la*lb), "cross product of %g %g %g and %g %g %g is %g %g %g", a[0], a[1], a[2], b[0], b[1], b[2], cr[0], cr[1], cr[2])
	// a plane with a normal of any length
	o := rndV(r, 10)
	pl := Plane{P: pt(o), N: vb}
	u := b.Mul(1 / lb)
	p := o.Add(rndV(r, 10))
	d := p.Sub(o).Dot(u)
	g := v3(pl.ProectionPointToPlane(pt(p)))
	c.Check(g.Dist(p.Sub(u.Mul(d))) <= 1e-11, "projection of %s on a plane with the normal %g %g %g is %s", vstr(p), b[0], b[1], b[2], vstr(g))
	if math.Abs(d) > 1e-6 {
		c.Check(pl.PointInFront(pt(p)) == (d > 0), "PointInFront is %v for a point at the distance %v of a plane with the normal %g %g %g", d <= 0, d, b[0], b[1], b[2])
		q := p.Sub(u.Mul(d * (1 + r.Float64())))
		if dq := q.Sub(o).Dot(u); math.Abs(dq) > 1e-6 {
			x := pl.IntersectSegment(pt(p), pt(q))
			c.Check(x != nil && v3(*x).Dist(p.Lerp(q, d/(d-dq))) < 1e-9, "segment %s %s crosses a plane with the normal %g %g %g in %v", vstr(p), vstr(q), b[0], b[1], b[2], x)
		}
	}
	// short lines
	s := geo.RandomDir(r).Mul(run.Pick(r, 1e-4, 1e-3, 0.01, 0.1, 1, 100) * (0.2 + r.Float64()))
	at := rndV(r, 10)
	q := v3(pt(p).ProjectOnLine(pt(at), pt(at.Add(s))))
	wl := at.Add(s.Mul(p.Sub(at).Dot(s) / s.Dot(s)))
	c.Check(q.Dist(wl) <= 1e-13/s.Len()*1e3+1e-9, "projection of %s on the line from %s along %g %g %g is %s, has to be %s", vstr(p), vstr(at), s[0], s[1], s[2], vstr(q), vstr(wl))
	c.Event("vectors of different scales", 1)
}
