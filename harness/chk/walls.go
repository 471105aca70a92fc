//go:build !only || C15

package chk

import (
	"math"
	"math/rand"

	"verif/geo"
	"verif/run"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() {
	run.Register(&run.Property{ID: "C15", Level: "exploration", Quick: 12000, Full: 400000, Min: 6000,
		Must: []string{"walls compared", "skirt lines compared", "contours that are holes", "concave contours", "tilted planes", "layers without additional walls", "sliced prisms", "single offsets", "walls that do not fit", "many contours"},
		Rule: "a case is a set of contours with corners of at least 60 degrees and edges long enough (regular, star, convex, letters; outer and holes; any plane and first corner), a line width, a wall thickness and a number of skirt lines, given to MakeOffset, PrepareLayers and SkirtPathes or sliced out of a prism by vip.Slice; distinct by contours and settings",
		Run:  c15})
}

// corner angles of a closed polygon: on the right hand side of its direction
func rightAngles(p []geo.P2) []float64 {
	n := len(p)
	out := make([]float64, n)
	for i := range p {
		a, b, d := p[(i+n-1)%n], p[i], p[(i+1)%n]
		u, v := geo.P2{b[0] - a[0], b[1] - a[1]}, geo.P2{d[0] - b[0], d[1] - b[1]}
		turn := math.Atan2(u[0]*v[1]-u[1]*v[0], u[0]*v[0]+u[1]*v[1]) // left turn is positive
		out[i] = math.Pi + turn
	}
	return out
}

// wallPoly draws a polygon, counterclockwise, whose edges survive offsets up to reach on both sides.
func wallPoly(r *rand.Rand, reach float64) []geo.P2 {
	for {
		var p []geo.P2
		switch r.Intn(4) {
		case 0:
			p = geo.RegularPoly(3+r.Intn(20), 5, r.Float64()*6)
		case 1:
			p = geo.StarPoly(r, 4+r.Intn(10), 4, 9)
		case 2:
			p = geo.ConvexPoly(r, 3+r.Intn(8), 5, 4+6*r.Float64())
		default:
			p = geo.NamedPoly(run.Pick(r, "L", "U", "T", "plus"))
		}
		if r.Intn(25) == 0 {
			p = geo.RegularPoly(20+r.Intn(150), 6+20*r.Float64(), r.Float64()*6)
		}
		n := len(p)
		ang := rightAngles(p)
		ok := true
		for _, a := range ang {
			d := a * 180 / math.Pi
			ok = ok && d >= 60-1e-6 && d <= 300+1e-6 && math.Abs(d-180) > 2
		}
		if !ok {
			continue
		}
		scale := 1.0
		for i := range p {
			j := (i + 1) % n
			l := math.Hypot(p[j][0]-p[i][0], p[j][1]-p[i][1])
			need := math.Abs(1/math.Tan(ang[i]/2)+1/math.Tan(ang[j]/2))*reach + 0.05
			scale = math.Max(scale, 1.15*need/l)
		}
		if scale > 15 {
			continue
		}
		k := r.Intn(n)
		out := make([]geo.P2, n)
		for i := range out {
			q := p[(i+k)%n]
			out[i] = geo.P2{q[0] * scale, q[1] * scale}
		}
		return out
	}
}

// miter moves every edge by d to its right.
func miter(p []geo.P2, d float64) []geo.P2 {
	n := len(p)
	out := make([]geo.P2, n)
	for i := range p {
		a, b, e := p[(i+n-1)%n], p[i], p[(i+1)%n]
		n1, n2 := rightNormal(a, b), rightNormal(b, e)
		k := d / (1 + n1[0]*n2[0] + n1[1]*n2[1])
		out[i] = geo.P2{b[0] + k*(n1[0]+n2[0]), b[1] + k*(n1[1]+n2[1])}
	}
	return out
}

func rightNormal(a, b geo.P2) geo.P2 {
	x, y := b[0]-a[0], b[1]-a[1]
	l := math.Hypot(x, y)
	return geo.P2{y / l, -x / l}
}

// sameLoop: path is the closed polygon want, in its direction
func sameLoop(path Path, want []geo.V3, n geo.V3, tol float64) string {
	k := len(path.Points)
	if k < 4 {
		return "has " + itoa(k) + " points"
	}
	for _, q := range path.Points {
		if !v3(q).Finite() {
			return "is not finite"
		}
	}
	if v3(path.Points[0]).Dist(v3(path.Points[k-1])) > tol {
		return "is not closed"
	}
	ws := pathSegs([]Path{polyPath(want, true)})
	gs := pathSegs([]Path{path})
	if w, at := geo.MaxDist(gs, ws); w > tol {
		return "goes through " + vstr(at) + " that is " + fdot(w) + " away from where it has to be"
	}
	if w, at := geo.MaxDist(ws, gs); w > tol {
		return "does not go through " + vstr(at) + ", the distance is " + fdot(w)
	}
	l := geo.TotalLen(ws)
	if math.Abs(geo.TotalLen(gs)-l) > 10*tol*float64(len(want)) {
		return "has length " + fdot(geo.TotalLen(gs)) + ", has to be " + fdot(l)
	}
	if a, b := geo.SignedArea(gs, n), geo.SignedArea(ws, n); math.Abs(a-b) > tol*l {
		return "encloses the area " + fdot(a) + ", has to be " + fdot(b)
	}
	return ""
}

func c15(c *run.Case) {
	r := c.R
	lw := run.Pick(r, 0.2, 0.4, 0.5, 0.8, 1.0, 0.1+0.9*r.Float64())
	k := run.Pick(r, 1, 2, 2, 3, 4, 6)
	if r.Intn(10) == 0 {
		k = 7 + r.Intn(6)
	}
	frac := run.Pick(r, 0.0, 0, 0, 0.3, 0.5, 0.8)
	if k == 1 {
		frac = run.Pick(r, 0.0, 0.3, 0.8, -0.5)
	}
	skirt := r.Intn(5)
	reach := lw * float64(maxInt(k-1, skirt))
	const tol = 1e-5
	s := stdSettings(r, 0.5)
	s.GcodeSettings.LineWidth = lw
	s.WallThickness = lw * (float64(k) + frac)
	s.SkirtLineCount = skirt
	s.FillDensity = run.Pick(r, 0, 20)

	if c.I%4 == 0 { // through slicing
		p := wallPoly(r, reach)
		h := 1 + 2*r.Float64()
		var m *geo.IMesh
		loops := [][]geo.P2{reversed(p)} // the solid is on the right
		if r.Intn(2) == 0 && len(p) >= 3 {
			in := wallPoly(r, reach)
			n := 3 + r.Intn(8)
			big := geo.RegularPoly(n, 1, 0.3)
			small := geo.RegularPoly(n, 1, 0.3)
			need := (2/math.Abs(math.Tan(math.Pi*float64(n-2)/float64(n)/2)))*reach + 0.3
			rs := 1.2 * need / (2 * math.Sin(math.Pi/float64(n)))
			for i := range big {
				small[i] = geo.P2{small[i][0] * rs, small[i][1] * rs}
				big[i] = geo.P2{big[i][0] * (rs*2.5 + 4*reach), big[i][1] * (rs*2.5 + 4*reach)}
			}
			_ = in
			m = geo.Ring("ring", big, small, h)
			loops = [][]geo.P2{reversed(big), small}
		} else {
			m = geo.Loft("prism", p, []float64{0, h}, geo.Ident2)
		}
		if m == nil || m.Watertight() != nil {
			c.Skip("no mesh")
		}
		dx := geo.P2{40*r.Float64() - 20, 40*r.Float64() - 20}
		m = m.Translate(geo.V3{dx[0], dx[1], 0}).Shuffle(r)
		s.PlanesFile = planesFile(c, "X0 Y0 Z1000 Tfalse R0")
		c.Distinct("%v %v %v %v", m.V, lw, s.WallThickness, skirt)
		c.Sample("prism over %d corners, line width %g, wall thickness %g, %d skirt lines", len(p), lw, s.WallThickness, skirt)
		g := vip.Slice(toMesh(m), s)
		ls := layersOf(&g)
		c.Check(len(ls) > 0 && len(ls[0]) > 0, "no layers")
		for i, l := range ls[0] {
			z := math.NaN()
			for _, q := range l.Paths {
				z = q.Points[0].Z
			}
			f := frame{geo.V3{dx[0], dx[1], z}, geo.V3{1, 0, 0}, geo.V3{0, 1, 0}, geo.V3{0, 0, 1}}
			sk := 0
			if i == 0 {
				sk = skirt
			}
			checkWalls(c, l, loops, f, lw, k, sk, 3e-3)
		}
		c.Event("sliced prisms", 1)
		return
	}

	if c.I%16 == 3 && k > 1 {
		c15small(c, lw, k, s)
		return
	}
	n := geo.V3{0, 0, 1}
	if r.Intn(2) == 0 {
		n = geo.RandomDir(r)
		c.Event("tilted planes", 1)
	}
	u, v := planeFrame(n)
	a := 2 * math.Pi * r.Float64()
	u2 := u.Mul(math.Cos(a)).Add(v.Mul(math.Sin(a)))
	f := frame{n.Mul(5).Add(u.Mul(30*r.Float64() - 15)), u2, n.Cross(u2), n}
	var loops [][]geo.P2
	x := 0.0
	cnt := 1 + r.Intn(3)
	if r.Intn(20) == 0 {
		cnt = 4 + r.Intn(30)
		c.Event("many contours", 1)
	}
	for q := cnt; q > 0; q-- {
		p := wallPoly(r, reach)
		w := 0.0
		for i := range p {
			p[i][0] += x
			w = math.Max(w, p[i][0])
		}
		x = w + 30
		if r.Intn(3) > 0 {
			p = reversed(p)
		} else {
			c.Event("contours that are holes", 1)
		}
		for _, an := range rightAngles(p) {
			if an > math.Pi {
				c.Event("concave contours", 1)
				break
			}
		}
		loops = append(loops, p)
	}
	c.Distinct("%v %v %v %v %v", loops, f, lw, s.WallThickness, skirt)
	c.Sample("%d contours in the plane %v, line width %g, wall thickness %g, %d skirt lines", len(loops), n, lw, s.WallThickness, skirt)
	mk := func() Layer {
		l := Layer{Order: 3, Norm: vec(n)}
		for _, p := range loops {
			l.Paths = append(l.Paths, polyPath(f.loop(p), true))
		}
		return l
	}
	// single offsets
	for _, p := range loops {
		in := polyPath(f.loop(p), true)
		keep := Path{Points: append([]Point(nil), in.Points...)}
		out := vip.MakeOffset(in, lw, vec(n))
		c.Check(in.Equal(keep), "MakeOffset changes its input")
		if reach < lw {
			continue
		}
		c.Check(out != nil, "MakeOffset gives nothing")
		if e := sameLoop(*out, f.loop(miter(p, lw)), n, tol); e != "" {
			c.Fail("offset by %g of %v: it %s", lw, keep.Points, e)
		}
		c.Event("single offsets", 1)
	}
	out := vip.PrepareLayers([]Layer{mk()}, s, nil, nil)
	c.Check(len(out) == 1, "%d layers of one", len(out))
	l := out[0]
	c.Check(l.Order == 3 && l.Norm == vec(n), "walls change the order or the normal of the layer")
	checkWalls(c, l, loops, f, lw, k, 0, tol)
	sl := vip.SkirtPathes(mk(), skirt, lw)
	checkWalls(c, sl, loops, f, lw, 1, skirt, tol)
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// checkWalls compares outer, middle and inner contours of a layer.
func checkWalls(c *run.Case, l Layer, loops [][]geo.P2, f frame, lw float64, k, skirt int, tol float64) {
	n := f.n
	// outer contours, with the skirt before them
	c.Check(len(l.Paths) == len(loops)*(skirt+1), "%d contours with %d skirt lines give %d outer paths", len(loops), skirt, len(l.Paths))
	inOrder(c, "outer path", l.Paths, loops, skirt+1, func(p []geo.P2, i int) []geo.V3 { return f.loop(miter(p, -lw*float64(skirt-i))) }, n, tol)
	c.Event("skirt lines compared", skirt*len(loops))
	if k < 2 {
		c.Check(len(l.MiddlePs) == 0 && len(l.InnerPs) == 0, "there are %d middle and %d inner walls with less than two line widths", len(l.MiddlePs), len(l.InnerPs))
		c.Event("layers without additional walls", 1)
		return
	}
	c.Check(len(l.InnerPs) == len(loops), "%d contours with %d walls have %d inner walls", len(loops), k, len(l.InnerPs))
	c.Check(len(l.MiddlePs) == len(loops)*(k-2), "%d contours with %d walls have %d middle walls", len(loops), k, len(l.MiddlePs))
	inOrder(c, "middle wall", l.MiddlePs, loops, k-2, func(p []geo.P2, i int) []geo.V3 { return f.loop(miter(p, lw*float64(i+1))) }, n, tol)
	inOrder(c, "inner wall", l.InnerPs, loops, 1, func(p []geo.P2, _ int) []geo.V3 { return f.loop(miter(p, lw*float64(k-1))) }, n, tol)
	c.Event("walls compared", (k-1)*len(loops))
}

// inOrder: paths consist of cnt loops for every contour, these in order
func inOrder(c *run.Case, what string, paths []Path, loops [][]geo.P2, cnt int, want func([]geo.P2, int) []geo.V3, n geo.V3, tol float64) {
	done := make([]int, len(loops))
	for j, p := range paths {
		ok, why := false, ""
		for i := range loops {
			if done[i] < cnt {
				e := sameLoop(p, want(loops[i], done[i]), n, tol)
				if e == "" {
					done[i]++
					ok = true
					break
				}
				if why == "" || len(loops) == 1 {
					why = e
				}
			}
		}
		c.Check(ok, "%s %d of %d is not the next one of any contour (line %d): it %s; path %v", what, j, len(paths), done[0], why, p.Points)
	}
}

var _ = slicers.Settings{}

// c15small: a regular contour that is too small for all walls has those which fit, and other contours have all.
func c15small(c *run.Case, lw float64, k int, s slicers.Settings) {
	r := c.R
	fit := r.Intn(k - 1)
	sides := 3 + r.Intn(20)
	in := lw * (float64(fit) + 0.2 + 0.6*r.Float64())
	p := reversed(geo.RegularPoly(sides, in/math.Cos(math.Pi/float64(sides)), 6*r.Float64()))
	f := frame{geo.V3{r.Float64(), r.Float64(), r.Float64()}, geo.V3{1, 0, 0}, geo.V3{0, 1, 0}, geo.V3{0, 0, 1}}
	big := reversed(wallPoly(r, lw*float64(k-1)))
	for i := range big {
		big[i][0] += 500
	}
	l := Layer{Order: 1, Norm: vec(f.n), Paths: []Path{polyPath(f.loop(p), true), polyPath(f.loop(big), true)}}
	if r.Intn(2) == 0 {
		l.Paths[0], l.Paths[1] = l.Paths[1], l.Paths[0]
	}
	c.Distinct("small %v %v %v", p, big, s.WallThickness)
	out := vip.PrepareLayers([]Layer{l}, s, nil, nil)
	c.Check(len(out) == 1 && len(out[0].Paths) == 2, "outer contours have changed")
	var mid, inner, bmid, binner []Path
	split := func(ps []Path, a, b *[]Path) {
		for _, q := range ps {
			if len(q.Points) > 0 && q.Points[0].X > 250 {
				*b = append(*b, q)
			} else {
				*a = append(*a, q)
			}
		}
	}
	split(out[0].MiddlePs, &mid, &bmid)
	split(out[0].InnerPs, &inner, &binner)
	checkWalls(c, Layer{Paths: []Path{polyPath(f.loop(big), true)}, MiddlePs: bmid, InnerPs: binner}, [][]geo.P2{big}, f, lw, k, 0, 1e-5)
	if fit == 0 {
		c.Check(len(mid)+len(inner) == 0, "a contour of %d sides, %.4g wide, has walls although a line of %.4g does not fit", sides, 2*in, lw)
	} else {
		checkWalls(c, Layer{Paths: []Path{polyPath(f.loop(p), true)}, MiddlePs: mid, InnerPs: inner}, [][]geo.P2{p}, f, lw, fit+1, 0, 1e-5)
	}
	c.Event("walls that do not fit", k-1-fit)
}
