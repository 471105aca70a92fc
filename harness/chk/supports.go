//go:build !only || C23

package chk

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"verif/geo"
	"verif/run"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

func init() {
	run.Register(&run.Property{ID: "C23", Level: "exploration", Quick: 2500, Full: 60000, Min: 1500,
		Must: []string{"models with overhangs", "models without overhangs", "layers compared", "support strokes", "edges that have to be supported", "edges whose wall meets the model", "samples of contours", "samples of strokes", "samples of expected strokes", "offset of zero", "edges whose wall is cut by the model", "edges that cross the bed", "layers without supports below an edge"},
		Rule: "a case is a solid (tables, mushrooms, arches, leaning, rotated), an angle, an offset and a layer height, sliced without and with supports; distinct by solid and settings",
		Run:  c23, Assumptions: []string{"an edge has to be supported if its wall is farther than 0.002 from the model"}})
}

// overhung draws solids with overhangs that are not above the rest of the model.
func overhung(r *rand.Rand) *geo.IMesh {
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	switch r.Intn(8) {
	case 7: // above a base whose slopes cut the walls
		top := overhung(r)
		if len(top.F) > 300 {
			return top
		}
		lo, hi := top.Bounds()
		d := hi.Sub(lo)
		k, h := u(0.1, 0.9), u(2, 8)
		n := 3 + r.Intn(8)
		base := geo.Loft("base", geo.RegularPoly(n, math.Hypot(d[0], d[1])*u(0.3, 0.9)+1, r.Float64()), []float64{0, h}, func(l int, p geo.P2) geo.P2 {
			if l == 1 {
				return geo.P2{p[0] * k, p[1] * k}
			}
			return p
		})
		m := geo.Union(top.Translate(geo.V3{-(lo[0] + hi[0]) / 2, -(lo[1] + hi[1]) / 2, h + u(0.5, 3) - lo[2]}), base)
		m.Name = top.Name + " above a base"
		return m
	case 0: // mushroom: a column with plates
		poly := geo.RegularPoly(3+r.Intn(6), 10, 2*math.Pi*r.Float64())
		if r.Intn(2) == 0 {
			poly = geo.ConvexPoly(r, 4+r.Intn(6), 10, 7)
		}
		a, b := u(0.15, 0.5), u(0.6, 1.2)
		z := []float64{0, u(3, 8)}
		s := []float64{a, a}
		for i := 0; i < 1+r.Intn(3); i++ {
			k := b
			if i%2 == 1 {
				k = a
			}
			d := run.Pick(r, 0., 0., u(0, 1))
			z = append(z, z[len(z)-1]+d, z[len(z)-1]+d+u(1, 5))
			s = append(s, k, k)
		}
		for i := 1; i < len(z); i++ { // levels of a loft must rise
			if z[i] <= z[i-1] {
				z[i] = z[i-1] + 1e-3*float64(1+r.Intn(3))
			}
		}
		return geo.Loft("mushroom", poly, z, func(l int, p geo.P2) geo.P2 { return geo.P2{p[0] * s[l], p[1] * s[l]} })
	case 1, 2: // a letter that stands up
		m := geo.Loft("letter", geo.NamedPoly(run.Pick(r, "L", "U", "T", "plus", "comb")), []float64{0, u(2, 9)}, geo.Ident2)
		return m.Rotate(geo.AxisAngle(geo.V3{1, 0, 0}, 90)).Rotate(geo.AxisAngle(geo.V3{0, 1, 0}, run.Pick(r, 0., 90, 180, 270, 45, 360*r.Float64())))
	case 3: // table
		w, d, h := u(8, 15), u(6, 12), u(4, 10)
		ms := []*geo.IMesh{geo.Box(w, d, u(1, 3)).Translate(geo.V3{0, 0, h})}
		for _, x := range []float64{0.1, 0.8} {
			for _, y := range []float64{0.1, 0.8} {
				ms = append(ms, geo.Box(0.1*w, 0.1*d, h+0.5).Translate(geo.V3{x * w, y * d, 0}))
			}
		}
		return geo.Union(ms...)
	case 4:
		m, _ := leaning(r)
		return m
	case 5: // no overhangs
		return geo.Loft("pyramid", geo.ConvexPoly(r, 3+r.Intn(8), 10, 10), []float64{0, u(5, 15)}, func(l int, p geo.P2) geo.P2 {
			s := 1 - 0.6*float64(l)
			return geo.P2{p[0] * s, p[1] * s}
		})
	}
	return geo.RandomSolid(r, -1).Rotate(geo.RandomRot(r))
}

// supportEdge is an edge of the outline of the overhanging area, lowered by the offset.
type supportEdge struct {
	a, b  geo.V3
	clear bool // its wall is away from the model
	cut   bool // its wall is cut by the model
}

// at is the part of the wall under the edge at the height z.
func (e supportEdge) at(z float64) (geo.Seg, bool) {
	lo, hi := e.a, e.b
	if lo[2] > hi[2] {
		lo, hi = hi, lo
	}
	if z > hi[2] {
		return geo.Seg{}, false
	}
	if z > lo[2] {
		lo = lo.Lerp(hi, (z-lo[2])/(hi[2]-lo[2]))
	}
	lo[2], hi[2] = z, z
	return geo.Seg{A: lo, B: hi}, true
}

func segTri(a, b geo.V3, t [3]geo.V3) bool {
	n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
	da, db := a.Sub(t[0]).Dot(n), b.Sub(t[0]).Dot(n)
	if da*db > 0 || da == db {
		return false
	}
	p := a.Lerp(b, da/(da-db))
	for i := 0; i < 3; i++ {
		if t[(i+1)%3].Sub(t[i]).Cross(p.Sub(t[i])).Dot(n) < 0 {
			return false
		}
	}
	return true
}

func triTriDist(s, t [3]geo.V3) float64 {
	d := math.Inf(1)
	for i := 0; i < 3; i++ {
		if segTri(s[i], s[(i+1)%3], t) || segTri(t[i], t[(i+1)%3], s) {
			return 0
		}
		d = math.Min(d, math.Min(triDist(s[i], t), triDist(t[i], s)))
		for j := 0; j < 3; j++ {
			d = math.Min(d, geo.SegSegDist(s[i], s[(i+1)%3], t[j], t[(j+1)%3]))
		}
	}
	return d
}

// pierces is true if the segment goes clearly through the triangle.
func pierces(a, b geo.V3, t [3]geo.V3) bool {
	n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
	area := n.Len()
	da, db := a.Sub(t[0]).Dot(n)/area, b.Sub(t[0]).Dot(n)/area
	if area < 1e-6 || da*db >= 0 || math.Min(math.Abs(da), math.Abs(db)) < 0.05 {
		return false
	}
	p := a.Lerp(b, da/(da-db))
	for i := 0; i < 3; i++ {
		if t[(i+1)%3].Sub(t[i]).Cross(p.Sub(t[i])).Dot(n) < 0.03*area*area {
			return false
		}
	}
	return true
}

// cutBy is true if a facet clearly goes through the triangle and is away from its corners.
func cutBy(s [3]geo.V3, ts [][3]geo.V3) bool {
	for _, t := range ts {
		hit := false
		for i := 0; i < 3; i++ {
			hit = hit || pierces(s[i], s[(i+1)%3], t) || pierces(t[i], t[(i+1)%3], s)
		}
		if hit && triDist(s[0], t) > 0.02 && triDist(s[1], t) > 0.02 && triDist(s[2], t) > 0.02 {
			return true
		}
	}
	return false
}

func c23(c *run.Case) {
	r := c.R
	m := overhung(r)
	if r.Intn(2) == 0 {
		m = m.Rotate(geo.AxisAngle(geo.V3{0, 0, 1}, 360*r.Float64()))
	}
	lo, hi := m.Bounds()
	m = m.Translate(geo.V3{run.Pick(r, 0, 40*r.Float64()-20) - lo[0], run.Pick(r, 0, 40*r.Float64()-20) - lo[1], run.Pick(r, 0, 0, 2*r.Float64(), -(hi[2]-lo[2])*r.Float64(), -20*r.Float64()) - lo[2]})
	if len(m.F) > 800 {
		c.Skip("more than 800 facets")
	}
	m = m.Shuffle(r)
	lo, hi = m.Bounds()
	H := hi[2] - lo[2]
	s := stdSettings(r, H/(5+15*r.Float64()))
	s.ColorizedAngle = run.Pick(r, 30, 30, 45, 60, 20, 5+70*r.Float64())
	s.SupportOffset = run.Pick(r, 1, 0.2, 0, 0, 2*r.Float64(), H*r.Float64())
	what := fmt.Sprintf("%s (%d facets), layers of %.4g, angle %.4g, offset %.4g", m.Name, len(m.F), s.LayerHeight, s.ColorizedAngle, s.SupportOffset)
	c.Distinct("%v %v %v %v", m.V, s.LayerHeight, s.ColorizedAngle, s.SupportOffset)
	c.Sample("%s", what)
	if s.SupportOffset == 0 {
		c.Event("offset of zero", 1)
	}

	// edges of the outline
	ts := m.Tris()
	type key [2]geo.V3
	count := map[key]int{}
	var order []key
	for _, t := range ts {
		switch overhang(t, s.ColorizedAngle, geo.V3{0, 0, 1}) {
		case -1:
			c.Skip("a facet is too close to the limit")
		case 1:
			for i := 0; i < 3; i++ {
				k := key{t[i], t[(i+1)%3]}
				if count[key{k[1], k[0]}] > 0 {
					k = key{k[1], k[0]}
				}
				if count[k] == 0 {
					order = append(order, k)
				}
				count[k]++
			}
		}
	}
	var edges []supportEdge
	for _, k := range order {
		if count[k] > 1 {
			continue
		}
		d := geo.V3{0, 0, -s.SupportOffset}
		e := supportEdge{a: k[0].Add(d), b: k[1].Add(d)}
		// the wall without its rim at the top, where it can touch the facets it supports
		a, b, rim := e.a, e.b, geo.V3{}
		if s.SupportOffset < 0.05 {
			rim = geo.V3{0, 0, -0.05}
		}
		a, b = a.Add(rim), b.Add(rim)
		if math.Max(a[2], b[2]) > lo[2]+0.01 {
			e.clear = true
			if bed := lo[2] + 1e-3; a[2] < bed {
				a = a.Lerp(b, (bed-a[2])/(b[2]-a[2]))
				c.Event("edges that cross the bed", 1)
			} else if b[2] < bed {
				b = b.Lerp(a, (bed-b[2])/(a[2]-b[2]))
				c.Event("edges that cross the bed", 1)
			}
			a0, b0 := a, b
			a0[2], b0[2] = lo[2], lo[2]
			for _, t := range ts {
				if triTriDist([3]geo.V3{a0, a, b}, t) < 2e-3 || triTriDist([3]geo.V3{a0, b0, b}, t) < 2e-3 {
					e.clear = false
					break
				}
			}
		}
		if a, b := e.a, e.b; !e.clear && math.Min(a[2], b[2]) > lo[2]+0.01 {
			a0, b0 := a, b
			a0[2], b0[2] = lo[2], lo[2]
			e.cut = cutBy([3]geo.V3{a0, a, b}, ts) && cutBy([3]geo.V3{a0, b0, b}, ts) && cutBy([3]geo.V3{b0, a, b}, ts) && cutBy([3]geo.V3{a0, b0, a}, ts)
		}
		if e.cut {
			c.Event("edges whose wall is cut by the model", 1)
		}
		if e.clear {
			c.Event("edges that have to be supported", 1)
		} else {
			c.Event("edges whose wall meets the model", 1)
		}
		edges = append(edges, e)
	}
	if len(edges) > 0 {
		c.Event("models with overhangs", 1)
	} else {
		c.Event("models without overhangs", 1)
	}

	mesh := toMesh(m)
	without := slicers.SliceByVector(mesh, AxisZ, s)
	before := copyMesh(mesh)
	s.SupportsOn = true
	with := slicers.SliceByVector(mesh, AxisZ, s)
	c.Check(sameMesh(mesh, before), "%s: the mesh is modified", what)
	byOrder := func(ls []Layer) map[int]Layer {
		o := map[int]Layer{}
		for _, l := range ls {
			o[l.Order] = l
		}
		return o
	}
	wo, wi := byOrder(without), byOrder(with)
	n := int(math.Ceil(H / s.LayerHeight))
	const tol = 2e-3
	for i := 0; i < n; i++ {
		z := lo[2] + (float64(i)+0.5)*H/float64(n)
		old, neu := pathSegs(wo[i].Paths), pathSegs(wi[i].Paths)
		at := fmt.Sprintf("%s: layer %d at %.6g", what, i, z)
		for _, e := range neu {
			c.Check(e.A.Finite() && math.Abs(e.A[2]-z) < 1e-6 && math.Abs(e.B[2]-z) < 1e-6, "%s has a line from %v to %v", at, e.A, e.B)
		}
		if len(edges) == 0 {
			c.Check(len(neu) == len(old), "%s: nothing overhangs, but with supports there are %d lines instead of %d", at, len(neu), len(old))
		}
		nn := newNear(neu)
		// contours are kept
		for _, e := range old {
			for _, p := range samples(e) {
				_, ok := nn.find(p, tol, e.B.Sub(e.A).Unit(), 0.9)
				c.Check(ok || e.A.Dist(e.B) < tol, "%s: with supports the contour is missing at %v", at, p)
				c.Event("samples of contours", 1)
			}
		}
		// nothing but strokes under edges is added
		var all, clear, uncut []geo.Seg
		tip := false
		for _, e := range edges {
			tip = tip || math.Abs(e.a[2]-z) < 1e-3 || math.Abs(e.b[2]-z) < 1e-3
			if s, ok := e.at(z); ok {
				all = append(all, s)
				if !e.cut {
					uncut = append(uncut, s)
				}
				if e.clear {
					clear = append(clear, s)
				}
			}
		}
		if tip {
			continue
		}
		on, na, nu := newNear(old), newNear(all), newNear(uncut)
		strokes := 0
		for _, e := range neu {
			for _, p := range samples(e) {
				if _, ok := on.find(p, tol, geo.V3{}, 0); ok {
					continue
				}
				_, ok := na.find(p, tol, geo.V3{}, 0)
				c.Check(ok, "%s has plastic at %v, this is not on the contours and not under an outline edge of the overhangs", at, p)
				_, ok = nu.find(p, 2*tol, geo.V3{}, 0)
				c.Check(ok, "%s has plastic at %v, in a wall from the bed to an edge that is cut by the model", at, p)
				strokes++
			}
		}
		c.Event("samples of strokes", strokes)
		for _, e := range clear {
			for _, p := range samples(e) {
				_, ok := nn.find(p, tol, geo.V3{}, 0)
				c.Check(ok, "%s: there is no support at %v, on the wall from %v to %v that is away from the model", at, p, e.A, e.B)
				c.Event("samples of expected strokes", 1)
			}
		}
		c.Event("support strokes", len(all))
		if len(all) == 0 && len(edges) > 0 {
			c.Event("layers without supports below an edge", 1)
		}
		c.Event("layers compared", 1)
	}
}

// samples are points inside of a segment, not closer than 1 % to its ends.
func samples(e geo.Seg) []geo.V3 {
	if e.A.Dist(e.B) < 0.02 {
		return nil
	}
	var out []geo.V3
	for _, f := range []float64{0.02, 0.23, 0.51, 0.77, 0.98} {
		out = append(out, e.A.Lerp(e.B, f))
	}
	return out
}

// nearest segments, sorted by their smallest x
type nearSegs struct {
	s []geo.Seg
	w float64 // the longest extent in x
}

func newNear(s []geo.Seg) *nearSegs {
	n := &nearSegs{s: append([]geo.Seg(nil), s...)}
	for _, e := range s {
		n.w = math.Max(n.w, math.Abs(e.A[0]-e.B[0]))
	}
	sort.Slice(n.s, func(i, j int) bool { return math.Min(n.s[i].A[0], n.s[i].B[0]) < math.Min(n.s[j].A[0], n.s[j].B[0]) })
	return n
}

// find is a segment that passes the point, with the direction u if cos > 0.
func (n *nearSegs) find(p geo.V3, tol float64, u geo.V3, cos float64) (geo.Seg, bool) {
	i := sort.Search(len(n.s), func(i int) bool { return math.Min(n.s[i].A[0], n.s[i].B[0]) >= p[0]-n.w-tol })
	for ; i < len(n.s) && math.Min(n.s[i].A[0], n.s[i].B[0]) <= p[0]+tol; i++ {
		e := n.s[i]
		if geo.SegDist(p, e.A, e.B) <= tol && (cos == 0 || e.B.Sub(e.A).Unit().Dot(u) > cos) {
			return e, true
		}
	}
	return geo.Seg{}, false
}
