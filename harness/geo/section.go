package geo

// Seg is one oriented edge of an exact cross-section: walking A->B with the
// plane normal up, the solid is on the RIGHT hand side.
type Seg struct{ A, B V3 }

// Section intersects the triangles with the plane {x: x.n = d}. It assumes
// general position: no vertex on the plane.
func Section(ts [][3]V3, n V3, d float64) []Seg {
	var out []Seg
	for _, t := range ts {
		var h [3]float64
		up := 0
		for k := 0; k < 3; k++ {
			h[k] = t[k].Dot(n) - d
			if h[k] > 0 {
				up++
			}
		}
		if up == 0 || up == 3 {
			continue
		}
		// the vertex alone on its side
		k := 0
		for ; k < 3; k++ {
			if (h[k] > 0) != (h[(k+1)%3] > 0) && (h[k] > 0) != (h[(k+2)%3] > 0) {
				break
			}
		}
		a, b, c := t[k], t[(k+1)%3], t[(k+2)%3]
		ha, hb, hc := h[k], h[(k+1)%3], h[(k+2)%3]
		p := a.Lerp(b, ha/(ha-hb))
		q := a.Lerp(c, ha/(ha-hc))
		nt := b.Sub(a).Cross(c.Sub(a))
		// solid on the right: right = dir x n must point against the outward normal
		if q.Sub(p).Cross(n).Dot(nt) < 0 {
			out = append(out, Seg{p, q})
		} else {
			out = append(out, Seg{q, p})
		}
	}
	return out
}

// SignedArea of a set of closed oriented loops in the plane with normal n:
// negative for solids on the right (clockwise outlines).
func SignedArea(segs []Seg, n V3) float64 {
	if len(segs) == 0 {
		return 0
	}
	o := segs[0].A
	s := 0.0
	for _, e := range segs {
		s += e.A.Sub(o).Cross(e.B.Sub(o)).Dot(n) / 2
	}
	return s
}

func TotalLen(segs []Seg) float64 {
	s := 0.0
	for _, e := range segs {
		s += e.A.Dist(e.B)
	}
	return s
}

// MaxDist is the largest distance from sample points of a (ends, middle and
// interior points) to the set b, and the sample point that attains it.
func MaxDist(a, b []Seg) (float64, V3) {
	worst := 0.0
	var at V3
	for _, e := range a {
		for _, t := range []float64{0, 0.21, 0.5, 0.83, 1} {
			p := e.A.Lerp(e.B, t)
			best := -1.0
			for _, f := range b {
				if d := SegDist(p, f.A, f.B); best < 0 || d < best {
					best = d
					if best < 1e-9 {
						break
					}
				}
			}
			if best < 0 {
				return 1e18, p
			}
			if best > worst {
				worst, at = best, p
			}
		}
	}
	return worst, at
}

// InsideEvenOdd: is p (in the plane) inside the loops, by ray casting along u
// (v completes the frame)? Only meaningful away from the boundary.
func InsideEvenOdd(p V3, segs []Seg, u, v V3) bool {
	c := false
	py := p.Dot(v)
	px := p.Dot(u)
	for _, e := range segs {
		ay, by := e.A.Dot(v), e.B.Dot(v)
		if (ay > py) != (by > py) {
			t := (py - ay) / (by - ay)
			if e.A.Dot(u)+t*(e.B.Dot(u)-e.A.Dot(u)) > px {
				c = !c
			}
		}
	}
	return c
}

// NearestBoundary is the distance from p to the closest edge.
func NearestBoundary(p V3, segs []Seg) float64 {
	best := 1e18
	for _, e := range segs {
		if d := SegDist(p, e.A, e.B); d < best {
			best = d
		}
	}
	return best
}
