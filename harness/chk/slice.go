package chk

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"

	"verif/geo"
	"verif/run"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

func init() {
	run.Register(&run.Property{ID: "C03", Level: "exploration", Quick: 12000, Full: 300000, Min: 6000,
		Must: []string{"layers in place", "flat meshes", "one-layer meshes", "empty end layers left out", "empty middle layers", "heights that are a multiple of the layer height", "directions that are not of unit length"},
		Rule: "a case is a random solid (14 kinds, turned, moved, scaled; or stacked bodies with gaps, flat or empty meshes), a slicing direction of any length and a layer height; distinct by mesh, direction and height",
		Run:  c03})
	run.Register(&run.Property{ID: "C04", Level: "exploration", Quick: 5000, Full: 120000, Min: 2500,
		Must: []string{"sections compared", "contours", "planes exactly through vertices", "sections with several contours", "samples of the exact section", "samples of contours", "planes 0.2 to 4 um from vertices"},
		Rule: "a case is a random solid (turned, moved, scaled, facets shuffled) with a random direction and layer height, or a solid with coordinates on a grid sliced along an axis with planes exactly through its vertices, edges and facets, or a prism with fans of facets around vertices 0.2 to 4 um from the planes; distinct by mesh, direction and height",
		Run:  c04})
	run.Register(&run.Property{ID: "C16", Level: "exploration", Quick: 20000, Full: 600000, Min: 10000,
		Must: []string{"closed chains", "open chains", "segments joined", "joints with noise", "junctions of several chains", "sections assembled by IntersectMesh", "pieces of several points", "chains of short segments", "small sections"},
		Rule: "a case is a set of closed and open chains (in a plane or in space, also touching each other in a point), split into pieces, shuffled, with noise below the tolerance at the joints; or a section of a random solid by a plane; distinct by the list of pieces",
		Run:  c16})
}

func randDir(r *rand.Rand) geo.V3 {
	switch r.Intn(4) {
	case 0:
		return geo.V3{0, 0, 1}
	case 1:
		d := geo.V3{}
		d[r.Intn(3)] = run.Pick(r, 1.0, -1.0)
		return d
	}
	return geo.RandomDir(r)
}

func randLen(r *rand.Rand) float64 { return run.Pick(r, 1.0, 1, 1, 2, 0.01, 37.5, 0.3, 1000) }

// sliceSolid draws a solid for slicing, of a random size.
func sliceSolid(r *rand.Rand) *geo.IMesh {
	m := placed(r, -1, run.Pick(r, 0.0, 0, 30, 200))
	if r.Intn(3) == 0 {
		k := run.Pick(r, 0.3, 2.5, 10)
		lo, hi := m.Bounds()
		c := lo.Add(hi).Mul(0.5)
		m = m.Translate(c.Mul(-1)).Scale(geo.V3{k, k, k}).Translate(c)
	}
	return m
}

func c03(c *run.Case) {
	r := c.R
	d := randDir(r)
	var m *geo.IMesh
	exact := false
	kind := c.I % 6
	switch kind {
	case 0: // several bodies one above another with gaps
		m = geo.RandomSolid(r, run.Pick(r, 0, 1, 3, 6))
		for k := 1 + r.Intn(3); k > 0; k-- {
			_, hi := m.Bounds()
			b := geo.RandomSolid(r, run.Pick(r, 0, 1, 3, 6))
			lo, _ := b.Bounds()
			m = geo.Union(m, b.Translate(geo.V3{0, 0, hi[2] - lo[2] + 0.3 + 6*r.Float64()}))
		}
		d = geo.V3{0, 0, 1}
	case 1: // heights that are multiples of the layer height
		m = gridded(r)
		d = geo.V3{}
		d[r.Intn(3)] = run.Pick(r, 1.0, -1.0)
		exact = true
	case 2: // flat or very low
		if r.Intn(2) == 0 {
			q := geo.NamedPoly("L")
			m = &geo.IMesh{}
			for _, p := range q {
				m.V = append(m.V, geo.V3{p[0], p[1], 2})
			}
			if r.Intn(4) > 0 {
				m.F = [][3]int{{0, 1, 2}, {0, 2, 3}, {0, 3, 5}, {3, 4, 5}}
			}
			d = geo.V3{0, 0, run.Pick(r, 1.0, -1.0)}
		} else {
			m = geo.Box(3+r.Float64(), 4, run.Pick(r, 0.01, 0.1, 0.5))
			d = geo.V3{0, 0, 1}
		}
	default:
		m = sliceSolid(r)
	}
	lo, hi := m.MinMax(d)
	H := hi - lo
	if len(m.F) == 0 {
		lo, hi, H = 0, 0, 0
	}
	var t float64
	switch {
	case exact:
		t = run.Pick(r, 0.25, 0.5, 0.125, 1.0)
		if n := math.Ceil(H / t); r.Intn(3) > 0 && H > 0.5 {
			_ = n
			t = H / float64(int(1)<<r.Intn(5)) // exact
		}
	case H == 0:
		t = 0.2
	case r.Intn(8) == 0:
		t = H * (1 + 3*r.Float64()) // one layer
	default:
		t = H / (1 + 40*r.Float64())
	}
	k := randLen(r)
	if exact {
		k = run.Pick(r, 1.0, 4.0)
	}
	if k != 1 {
		c.Event("directions that are not of unit length", 1)
	}
	countLarge(c, m)
	c.Distinct("%v %v %v %v", m.V, d, t, k)
	c.Sample("%s, direction %v x %v, height %.6g, layer height %.6g", m.Name, d, k, H, t)
	mesh := toMesh(m)
	ls := slicers.SliceByVector(mesh, vec(d.Mul(k)), stdSettings(r, t))
	if H == 0 {
		c.Check(len(ls) == 0, "flat mesh gives %d layers", len(ls))
		c.Event("flat meshes", 1)
		return
	}
	q := H / t
	n := int(math.Ceil(q))
	if near(q, math.Round(q), 1e-9*q) && !exact { // rounding decides
		c.Skip("height is a multiple of the layer height up to rounding")
	}
	if exact && q == math.Round(q) {
		c.Event("heights that are a multiple of the layer height", 1)
	}
	if n == 1 {
		c.Event("one-layer meshes", 1)
	}
	c.Check(len(ls) >= n-2 && len(ls) <= n, "%d layers of %d slabs (height %v, layer height %v)", len(ls), n, H, t)
	scale := math.Abs(lo) + math.Abs(hi) + 1
	present := map[int]bool{}
	prev := math.Inf(-1)
	for i, l := range ls {
		nv := vv3(l.Norm)
		c.Check(nv.Dist(d) < 1e-9, "layer %d has direction %v, has to be %v", i, nv, d)
		if i > 0 {
			c.Check(l.Order == ls[i-1].Order+1, "layer %d has number %d after %d", i, l.Order, ls[i-1].Order)
		}
		c.Check(l.Order >= 0 && l.Order < n, "layer %d has number %d of %d", i, l.Order, n)
		present[l.Order] = true
		z := lo + (float64(l.Order)+0.5)*H/float64(n)
		cnt := 0
		for _, p := range l.Paths {
			for _, x := range p.Points {
				c.Check(near(v3(x).Dot(d), z, 1e-7*scale), "layer %d of %d (height %v from %v, layer height %v): point at %.9g, the middle of the slab is %.9g", l.Order, n, H, lo, t, v3(x).Dot(d), z)
				cnt++
			}
		}
		if cnt > 0 {
			c.Check(z > prev, "layer %d is not above the previous one", i)
			prev = z
			c.Event("layers in place", 1)
		} else if i > 0 && i < len(ls)-1 {
			c.Event("empty middle layers", 1)
		}
	}
	for o := 0; o < n; o++ {
		if present[o] {
			continue
		}
		c.Check(o == 0 || o == n-1, "layer %d of %d is missing", o, n)
		z := lo + (float64(o)+0.5)*H/float64(n)
		full := true
		for _, e := range []float64{-1e-6, 1e-6} {
			full = full && geo.TotalLen(geo.Section(m.Tris(), d, z+e*scale)) > 0.05
		}
		c.Check(!full, "layer %d of %d is left out though the section at %v is not empty", o, n, z)
		c.Event("empty end layers left out", 1)
	}
}

// component of the exact section that contains the segment nearest to p
func componentLen(segs []geo.Seg, p geo.V3) float64 {
	best, bi := math.Inf(1), -1
	for i, s := range segs {
		if d := geo.SegDist(p, s.A, s.B); d < best {
			best, bi = d, i
		}
	}
	if bi < 0 {
		return 0
	}
	used := map[int]bool{bi: true}
	q := []int{bi}
	l := 0.0
	for len(q) > 0 {
		s := segs[q[0]]
		q = q[1:]
		l += s.A.Dist(s.B)
		for i, o := range segs {
			if !used[i] && (o.A.Dist(s.B) < 1e-6 || o.B.Dist(s.A) < 1e-6) {
				used[i] = true
				q = append(q, i)
			}
		}
	}
	return l
}

// compareSection compares contours with the exact section ex of the solid; the plane has the normal d.
func compareSection(c *run.Case, what string, paths []Path, ex []geo.Seg, d geo.V3, tol float64) {
	for i, p := range paths {
		if len(p.Points) > 0 && len(p.Points) < 3 && geo.TotalLen(pathSegs(paths[i:i+1])) < 1e-6 &&
			geo.NearestBoundary(v3(p.Points[0]), ex) < tol { // a tiny loop, or an edge of the solid that only touches the plane
			c.Event("contours without length", 1)
			continue
		}
		c.Check(len(p.Points) >= 3, "%s: contour %d has %d points", what, i, len(p.Points))
		a, b := v3(p.Points[0]), v3(p.Points[len(p.Points)-1])
		gap := math.Max(math.Abs(a[0]-b[0]), math.Max(math.Abs(a[1]-b[1]), math.Abs(a[2]-b[2])))
		c.Check(gap < 1.01e-6, "%s: contour %d of %d is not closed: from %v to %v", what, i, len(paths), a, b)
		c.Event("contours", 1)
	}
	if len(paths) > 1 {
		c.Event("sections with several contours", 1)
	}
	got := pathSegs(paths)
	if os.Getenv("VRUN_DUMP") != "" {
		fmt.Fprintln(os.Stderr, what, "normal", d, "\ncontours")
		for _, p := range paths {
			fmt.Fprintln(os.Stderr, p.Points)
		}
		fmt.Fprintln(os.Stderr, "section")
		for _, e := range ex {
			fmt.Fprintln(os.Stderr, e.A, e.B)
		}
	}
	exd := dropTiny(ex, got, tol)
	exd, slivers := dropSlivers(exd, got, tol, 1e-3)
	if slivers {
		c.Event("sections with parts too thin to be kept", 1)
	}
	if w, at := geo.MaxDist(exd, got); w > tol {
		c.Fail("%s: part of the section is missing at %v, the nearest contour is %.6g away; %d contours", what, at, w, len(paths))
	}
	if w, at := geo.MaxDist(got, ex); w > tol {
		c.Fail("%s: contour goes through %v that is %.6g away from the section", what, at, w)
	}
	c.Event("samples of the exact section", 5*len(exd))
	c.Event("samples of contours", 5*len(got))
	le, lg := geo.TotalLen(exd), geo.TotalLen(got)
	c.Check(slivers || lg < le*1.003+0.05 && lg > le*0.997-0.05, "%s: contours have length %.6g, the section has %.6g", what, lg, le)
	ae, ag := geo.SignedArea(exd, d), geo.SignedArea(got, d)
	c.Check(near(ae, ag, 1e-3*le+1e-3), "%s: contours enclose the area %.6g with the solid on the right, the section has %.6g (length %.6g)", what, -ag, -ae, le)
	// local direction
	for _, s := range got {
		if s.A.Dist(s.B) < 0.02 {
			continue
		}
		mid, u := s.A.Lerp(s.B, 0.5), s.B.Sub(s.A).Unit()
		ok := false
		for _, e := range ex {
			if e.B.Sub(e.A).Dot(u) > 0 && geo.SegDist(mid, e.A, e.B) < tol {
				ok = true
				break
			}
		}
		c.Check(ok, "%s: contour goes from %v to %v with the solid on the left", what, s.A, s.B)
	}
	c.Event("sections compared", 1)
}

// dropSlivers removes parts of the section that are thinner than w (of a plane through a vertex they have no area) and
// were not found in got.
func dropSlivers(ex, got []geo.Seg, tol, w float64) ([]geo.Seg, bool) {
	var out []geo.Seg
	dropped := false
	for _, s := range ex {
		if d, at := geo.MaxDist([]geo.Seg{s}, got); d > tol {
			thin := s.A.Dist(s.B) < w
			for _, e := range ex {
				if e.B.Sub(e.A).Dot(s.B.Sub(s.A)) < 0 && geo.SegDist(at, e.A, e.B) < w {
					thin = true
				}
			}
			if thin {
				dropped = true
				continue
			}
		}
		out = append(out, s)
	}
	return out, dropped
}

// dropTiny removes loops shorter than 0.01 that were not found in got.
func dropTiny(ex, got []geo.Seg, tol float64) []geo.Seg {
	out := ex
	for n := 0; n < 20; n++ {
		w, at := geo.MaxDist(out, got)
		if w <= tol || componentLen(out, at) >= 0.01 {
			break
		}
		var keep []geo.Seg
		for _, s := range out {
			if geo.SegDist(at, s.A, s.B) > 0.01 {
				keep = append(keep, s)
			}
		}
		out = keep
	}
	return out
}

func c04(c *run.Case) {
	r := c.R
	var m *geo.IMesh
	var d geo.V3
	exact := c.I%3 == 0
	rounded := exact && r.Intn(2) == 0
	close := false
	var t float64
	if exact {
		m = gridded(r)
		if r.Intn(2) == 0 {
			m = m.Translate(geo.V3{float64(r.Intn(100)), float64(-r.Intn(100)), float64(r.Intn(5) - 2)})
		}
		d[r.Intn(3)] = run.Pick(r, 1.0, 1.0, -1.0)
		lo, hi := m.MinMax(d)
		var ns []int
		for n := 1; n <= 64; n++ {
			if x := (hi - lo) / float64(n) * 8; x == math.Round(x) {
				ns = append(ns, n)
			}
		}
		t = (hi - lo) / float64(ns[r.Intn(len(ns))])
		if rounded {
			rot := geo.RandomRot(r)
			if r.Intn(2) == 0 {
				rot = geo.AxisAngle(geo.V3{1, 0, 0}, run.Pick(r, 60., -60, 30))
			}
			m, d = m.Rotate(rot), rot.Apply(d)
			if r.Intn(2) == 0 {
				s := math.Pow(10, -9-4*r.Float64())
				m = m.Map(func(v geo.V3) geo.V3 { return v.Add(d.Mul(s * (2*r.Float64() - 1))) })
			}
			lo, hi := m.MinMax(d)
			t = (hi - lo) / math.Round((hi-lo)/t) * (1 + 1e-9)
		}
	} else if close = c.I%9 == 4; close {
		n := 1 + r.Intn(12)
		m, d = geo.NearPlanes(r, n, 2e-7)
		lo, hi := m.MinMax(d)
		t = (hi - lo) / (float64(n) - 0.5*r.Float64())
	} else if close = c.I%9 == 7; close {
		// a vertex of any solid; the tip of a second body gives the planes
		m = sliceSolid(r)
		d = geo.RandomDir(r)
		lo, hi := m.MinMax(d)
		f := m.F[r.Intn(len(m.F))]
		v := m.V[f[r.Intn(3)]].Dot(d) - lo
		if v < 0.02*(hi-lo) {
			c.Skip("lowest vertex")
		}
		v += run.Pick(r, 1., -1) * 2e-7 * math.Pow(20, r.Float64())
		k := float64(r.Intn(8)) + 0.5
		n := math.Ceil((hi - lo) / v * k * (1 + 0.3*r.Float64()))
		top := lo + v*n/k
		at := m.V[f[0]].Add(geo.RandomDir(r).Cross(d).Unit().Mul(3 * (hi - lo + 20)))
		tip := at.Add(d.Mul(top - at.Dot(d)))
		x, y := planeFrame(d)
		e := (top - hi) + 0.3*(hi-lo)
		m = geo.Union(m, &geo.IMesh{Name: "tip", V: []geo.V3{tip, tip.Sub(d.Mul(e)), tip.Sub(d.Mul(e)).Add(x.Mul(2)), tip.Sub(d.Mul(e)).Add(y.Mul(2))},
			F: [][3]int{{1, 3, 2}, {0, 1, 2}, {0, 2, 3}, {0, 3, 1}}})
		t = (top - lo) / (n - 0.5)
	} else {
		m = sliceSolid(r)
		d = randDir(r)
		lo, hi := m.MinMax(d)
		t = (hi - lo) / (1 + 12*r.Float64())
	}
	countLarge(c, m)
	c.Distinct("%v %v %v", m.V, d, t)
	c.Sample("%s, %d facets, direction %v, layer height %.6g, exact %v", m.Name, len(m.F), d, t, exact)
	ls := slicers.SliceByVector(toMesh(m), vec(d), stdSettings(r, t))
	lo, hi := m.MinMax(d)
	n := int(math.Ceil((hi - lo) / t))
	hs := m.SortedHeights(d)
	tris := m.Tris()
	for _, l := range ls {
		if l.Order >= n {
			continue // C03
		}
		z := lo + (float64(l.Order)+0.5)*(hi-lo)/float64(n)
		at := z
		if nd := geo.NearestHeight(hs, z); nd < 1e-4 {
			if close {
				c.Event("planes 0.2 to 4 um from vertices", 1)
			} else if rounded && nd < 1e-8 {
				c.Event("planes through vertices up to rounding", 1)
			} else if !exact || nd != 0 {
				c.Event("planes that are too near to a vertex, not judged", 1)
				continue
			}
			if !close {
				at = z - 1e-6
				c.Event("planes exactly through vertices", 1)
			}
		}
		ex := geo.Section(tris, d, at)
		compareSection(c, "layer "+itoa(l.Order)+" of "+itoa(n)+" of "+m.Name, l.Paths, ex, d, 2e-3)
	}
	have := map[int]bool{}
	for _, l := range ls {
		have[l.Order] = true
	}
	for o := 0; o < n; o++ {
		z := lo + (float64(o)+0.5)*(hi-lo)/float64(n)
		if !have[o] && geo.NearestHeight(hs, z) > 1e-4 {
			l := geo.TotalLen(geo.Section(tris, d, z))
			c.Check(l < 0.05, "no layer at %v, the section there has %.6g of contours", z, l)
		}
	}
}

// ---- C16

type piece []geo.V3

func planeFrame(n geo.V3) (u, v geo.V3) {
	a := geo.V3{1, 0, 0}
	if math.Abs(n[0]) > 0.7 {
		a = geo.V3{0, 1, 0}
	}
	u = n.Cross(a).Unit()
	return u, n.Cross(u)
}

// simple closed polygon in the plane through o
func randLoop(r *rand.Rand, o, u, v geo.V3) []geo.V3 {
	var p []geo.P2
	switch r.Intn(3) {
	case 0:
		p = geo.StarPoly(r, 3+r.Intn(40), 2, 9)
		if r.Intn(60) == 0 {
			p = geo.RegularPoly(100+r.Intn(900), 11, r.Float64())
		}
	case 1:
		p = geo.RegularPoly(3+r.Intn(30), 1+8*r.Float64(), r.Float64())
	default:
		p = geo.NamedPoly(run.Pick(r, "L", "U", "T", "plus", "comb"))
	}
	var out []geo.V3
	for _, q := range p {
		out = append(out, o.Add(u.Mul(q[0])).Add(v.Mul(q[1])))
	}
	if r.Intn(2) == 0 {
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	k := r.Intn(len(out))
	return append(append([]geo.V3(nil), out[k:]...), out[:k]...)
}

type chain struct {
	pts    []geo.V3
	closed bool
}

func c16(c *run.Case) {
	if c.I%10 == 0 {
		c16mesh(c)
		return
	}
	r := c.R
	n := geo.RandomDir(r)
	if r.Intn(3) == 0 {
		n = geo.V3{0, 0, 1}
	}
	u, v := planeFrame(n)
	var chains []chain
	k := 1 + r.Intn(5)
	if r.Intn(100) == 0 {
		k = 6 + r.Intn(60)
		if r.Intn(8) == 0 {
			k = 150 + r.Intn(300)
			c.Event("thousands of segments", 1)
		}
		c.Event("many chains", 1)
	}
	junction := r.Intn(5) == 0 // chains that share a point: the way through it is not determined
	for i := 0; i < k; i++ {
		o := u.Mul(25*float64(i) - 40).Add(n.Mul(3))
		lp := randLoop(r, o, u, v)
		if junction && i > 0 {
			lp2 := chains[0].pts
			sh := lp2[r.Intn(len(lp2))].Sub(lp[0])
			for j := range lp {
				lp[j] = lp[j].Add(sh)
			}
		}
		ch := chain{lp, true}
		switch r.Intn(3) {
		case 0: // open
			m := 2 + r.Intn(len(lp)-1)
			ch = chain{lp[:m], false}
		case 1:
			if r.Intn(3) == 0 { // in space
				var p []geo.V3
				q := o
				for j := 2 + r.Intn(30); j > 0; j-- {
					q = q.Add(geo.RandomDir(r).Mul(0.5 + 3*r.Float64()))
					p = append(p, q)
				}
				ch = chain{p, false}
			}
		}
		if len(ch.pts) > 300 {
			c.Event("long chains", 1)
		}
		chains = append(chains, ch)
	}
	sep := 1e-3
	if r.Intn(3) == 0 { // small ones
		sc := math.Pow(10, -4.5*r.Float64())
		for _, ch := range chains {
			for j := range ch.pts {
				ch.pts[j] = ch.pts[j].Mul(sc)
			}
		}
		sep = math.Max(1e-3*sc, 1e-5)
		c.Event("chains of short segments", 1)
	}
	if junction && k > 1 {
		c.Event("junctions of several chains", 1)
	}
	noise := run.Pick(r, 0.0, 0, 1e-9, 3e-7)
	if noise > 0 {
		c.Event("joints with noise", 1)
	}
	jit := func(p geo.V3) geo.V3 {
		if noise == 0 {
			return p
		}
		return p.Add(geo.V3{noise * (2*r.Float64() - 1), noise * (2*r.Float64() - 1), noise * (2*r.Float64() - 1)})
	}
	// split in pieces
	var pieces []piece
	long := r.Intn(3) == 0
	for _, ch := range chains {
		pts := ch.pts
		if ch.closed {
			pts = append(append([]geo.V3(nil), pts...), pts[0])
			c.Event("closed chains", 1)
		} else {
			c.Event("open chains", 1)
		}
		for i := 0; i+1 < len(pts); {
			l := 1
			if long && r.Intn(2) == 0 {
				l += r.Intn(4)
			}
			if i+l >= len(pts) {
				l = len(pts) - 1 - i
			}
			if ch.closed && l == len(pts)-1 {
				l = 1
			}
			var pc piece
			for j := i; j <= i+l; j++ {
				pc = append(pc, jit(pts[j]))
			}
			if l > 1 {
				c.Event("pieces of several points", 1)
			}
			pieces = append(pieces, pc)
			i += l
		}
	}
	// neighbours of all ends have to be far, otherwise other joints are right as well
	if !junction && !separated(chains, sep) {
		c.Skip("vertices are too near to each other")
	}
	r.Shuffle(len(pieces), func(i, j int) { pieces[i], pieces[j] = pieces[j], pieces[i] })
	var in []Path
	for _, p := range pieces {
		in = append(in, polyPath(p, false))
	}
	c.Distinct("%v", pieces)
	c.Sample("%d chains, %d pieces, noise %g, junction %v", len(chains), len(pieces), noise, junction)
	given := make([]Path, len(in))
	for i := range in {
		given[i] = Path{Points: append([]Point(nil), in[i].Points...)}
	}
	out := JoinPaths3(in)
	var want, got []geo.Seg
	want = pathSegs(given)
	got = pathSegs(out)
	c.Event("segments joined", len(want))
	matchSegs(c, want, got, true, 2e-6)
	if junction {
		return
	}
	nc := 0
	for _, ch := range chains {
		if ch.closed {
			nc++
		}
	}
	gc := 0
	for _, p := range out {
		if v3(p.Points[0]).Dist(v3(p.Points[len(p.Points)-1])) < 3e-6 {
			gc++
		}
	}
	c.Check(len(out) == len(chains), "%d chains in %d pieces are joined to %d paths", len(chains), len(pieces), len(out))
	c.Check(gc == nc, "%d of the paths are closed, %d of the chains are", gc, nc)
}

func separated(chains []chain, d float64) bool {
	var all []geo.V3
	for _, ch := range chains {
		all = append(all, ch.pts...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i][0] < all[j][0] })
	for i := range all {
		for j := i + 1; j < len(all) && all[j][0]-all[i][0] < d; j++ {
			if all[i].Dist(all[j]) < d {
				return false
			}
		}
	}
	return true
}

// matchSegs: the same segments, each once, in the same direction if directed
func matchSegs(c *run.Case, want, got []geo.Seg, directed bool, tol float64) {
	c.Check(len(want) == len(got), "%d segments are given, %d are in the paths", len(want), len(got))
	used := make([]bool, len(want))
	for _, g := range got {
		ok := false
		for i, w := range want {
			if used[i] {
				continue
			}
			if w.A.Dist(g.A) < tol && w.B.Dist(g.B) < tol || !directed && w.A.Dist(g.B) < tol && w.B.Dist(g.A) < tol {
				used[i], ok = true, true
				break
			}
		}
		c.Check(ok, "paths go from %v to %v, there is no such segment or it is used already", g.A, g.B)
	}
}

func c16mesh(c *run.Case) {
	r := c.R
	m := placed(r, -1, 10)
	sc, tol, sep := 1., 1e-5, 1e-3
	if r.Intn(2) == 0 { // a small one
		sc = math.Pow(10, -3*r.Float64())
		m = m.Scale(geo.V3{sc, sc, sc})
		tol, sep = 3e-8, 1e-5
		c.Event("small sections", 1)
	}
	d := geo.RandomDir(r)
	lo, hi := m.MinMax(d)
	z := lo + (hi-lo)*(0.05+0.9*r.Float64())
	if geo.NearestHeight(m.SortedHeights(d), z) < math.Max(1e-3*sc, 2e-6) {
		c.Skip("plane near a vertex")
	}
	ex := geo.Section(m.Tris(), d, z)
	for _, e := range ex {
		if e.A.Dist(e.B) < math.Max(1e-4*sc, 1e-5) {
			c.Skip("tiny segments")
		}
	}
	for i := range ex {
		for j := i + 1; j < len(ex); j++ {
			if ex[i].A.Dist(ex[j].A) < sep {
				c.Skip("vertices are too near to each other")
			}
		}
	}
	l := (Plane{P: pt(d.Mul(z)), N: vec(d)}).IntersectMesh(toMesh(m))
	countLarge(c, m)
	c.Distinct("%v %v %v", m.V, d, z)
	got := pathSegs(l.Paths)
	matchSegs(c, ex, got, false, tol)
	for i, p := range l.Paths {
		c.Check(v3(p.Points[0]).Dist(v3(p.Points[len(p.Points)-1])) < 1e-5, "path %d of a section of a closed mesh is not closed", i)
	}
	c.Check(vv3(l.Norm).Dist(d) < 1e-9, "normal of the section is %v, has to be %v", l.Norm, d)
	c.Event("sections assembled by IntersectMesh", 1)
	c.Event("segments joined", len(ex))
}
