package geo

// ClipTri is the part of a triangle where p.n >= d, as triangles of the same orientation.
func ClipTri(t [3]V3, n V3, d float64) [][3]V3 {
	var poly []V3
	for i := range t {
		a, b := t[i], t[(i+1)%3]
		ha, hb := a.Dot(n)-d, b.Dot(n)-d
		if ha >= 0 {
			poly = append(poly, a)
		}
		if (ha >= 0) != (hb >= 0) {
			poly = append(poly, a.Lerp(b, ha/(ha-hb)))
		}
	}
	var out [][3]V3
	for i := 2; i < len(poly); i++ {
		out = append(out, [3]V3{poly[0], poly[i-1], poly[i]})
	}
	return out
}

// Clip is the part of a surface where p.n >= d.
func Clip(ts [][3]V3, n V3, d float64) [][3]V3 {
	var out [][3]V3
	for _, t := range ts {
		out = append(out, ClipTri(t, n, d)...)
	}
	return out
}

// VolumeAbout is the sum of signed volumes of pyramids over the triangles with the apex in o.
func VolumeAbout(ts [][3]V3, o V3) float64 {
	s := 0.0
	for _, t := range ts {
		s += t[0].Sub(o).Dot(t[1].Sub(o).Cross(t[2].Sub(o))) / 6
	}
	return s
}

// Area of a surface.
func Area(ts [][3]V3) float64 {
	s := 0.0
	for _, t := range ts {
		s += t[1].Sub(t[0]).Cross(t[2].Sub(t[0])).Len() / 2
	}
	return s
}

// Solve3 finds the common point of three planes p.n[i] = d[i]; det is small for planes that are nearly parallel.
func Solve3(n [3]V3, d [3]float64) (p V3, det float64) {
	c := n[1].Cross(n[2])
	det = n[0].Dot(c)
	p = c.Mul(d[0]).Add(n[2].Cross(n[0]).Mul(d[1])).Add(n[0].Cross(n[1]).Mul(d[2])).Mul(1 / det)
	return
}

// ClippedArea is the signed area (seen against n) of the clipped inside of closed oriented loops.
func ClippedArea(segs []Seg, n V3, clip func([][3]V3) [][3]V3) float64 {
	if len(segs) == 0 {
		return 0
	}
	s, o := 0.0, segs[0].A
	for _, e := range segs {
		t := [3]V3{o, e.A, e.B}
		for _, q := range clip([][3]V3{t}) {
			s += q[1].Sub(q[0]).Cross(q[2].Sub(q[0])).Dot(n) / 2
		}
	}
	return s
}
