//go:build !only || C17 || C18 || C24

package chk

import (
	"math"
	"math/rand"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

func init() {
	run.Register(&run.Property{ID: "C17", Level: "exploration", Quick: 40000, Full: 1500000, Min: 20000,
		Must: []string{"open paths", "closed paths", "closed paths starting inside a line", "collinear points removed", "corners kept", "dense paths", "closed paths with many corners", "joined and merged"},
		Rule: "a case is a path of straight runs between corners with collinear points put in (open, closed, any start) or a dense path of short lines, given to MinimizeLines (or cut, shuffled and joined before); distinct by points",
		Run:  c17})
	run.Register(&run.Property{ID: "C18", Level: "exploration", Quick: 40000, Full: 1500000, Min: 20000,
		Must: []string{"points kept", "points removed", "splits verified", "straight lines", "closed lines", "lines with repeated points", "one point", "no points"},
		Rule: "a case is a polyline (random walk, smooth curve, straight, closed, with repeated points) and an epsilon, given to SimplifyLine; distinct by points and epsilon",
		Run:  c18})
	run.Register(&run.Property{ID: "C24", Level: "exploration", Quick: 30000, Full: 1000000, Min: 15000,
		Must: []string{"points inside", "points outside", "points level with a vertex", "centroids", "contours in tilted planes", "contours in tilted planes along an axis", "contours in vertical planes", "windings", "reversals", "paths closed", "contours of many points", "small contours"},
		Rule: "a case is a simple polygon in a horizontal, vertical or tilted plane with any start and direction, and points of its plane (many level with its vertices); distinct by polygon and plane",
		Run:  c24})
}

// samePts: equal point by point
func samePts(a, b []Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// cyclic: closed paths a and b pass the same points in the same order
func cyclic(a, b []Point) bool {
	n := len(a) - 1
	if len(a) != len(b) || n < 1 || !a[0].Equal(a[n]) || !b[0].Equal(b[n]) {
		return false
	}
	for s := 0; s < n; s++ {
		ok := true
		for i := 0; i < n && ok; i++ {
			ok = a[(i+s)%n].Equal(b[i])
		}
		if ok {
			return true
		}
	}
	return false
}

func c17(c *run.Case) {
	r := c.R
	f := randFrame(r, 100)
	if r.Intn(4) == 0 {
		c17dense(c, f)
		return
	}
	closed := r.Intn(2) == 0
	// corners
	var cs []geo.V3
	flat := r.Intn(2) == 0
	if closed {
		p := randLoop2(r)
		if r.Intn(60) == 0 { // a gear
			n := 20 + r.Intn(100)
			p = nil
			for i, q := range geo.RegularPoly(2*n, float64(n), r.Float64()) {
				l := 1 + 0.3*float64(i%2)
				p = append(p, geo.P2{q[0] * l, q[1] * l})
			}
			c.Event("closed paths with many corners", 1)
		}
		if flat {
			cs = f.loop(p)
		} else { // a closed path in space
			for i, q := range p {
				cs = append(cs, f.at(q).Add(f.n.Mul(3*math.Sin(float64(3*i)))))
			}
		}
	} else {
		for i, n := 0, 2+r.Intn(12); i < n; i++ {
			if flat {
				cs = append(cs, f.at(geo.P2{20 * r.Float64(), 20 * r.Float64()}))
			} else {
				cs = append(cs, f.o.Add(geo.V3{20 * r.Float64(), 20 * r.Float64(), 20 * r.Float64()}))
			}
		}
	}
	// at least a degree, not turning back, long enough lines
	n := len(cs)
	for i := 0; i < n; i++ {
		if !closed && (i == 0 || i == n-1) {
			continue
		}
		a, b, d := cs[(i+n-1)%n], cs[i], cs[(i+1)%n]
		ang := vec(b.Sub(a)).Angle(vec(d.Sub(b)))
		u, v := b.Sub(a).Unit(), d.Sub(b).Unit()
		ang = math.Atan2(u.Cross(v).Len(), u.Dot(v)) * 180 / math.Pi
		if ang < 1 || ang > 178 {
			c.Skip("corner of less than a degree")
		}
	}
	m := n - 1
	if closed {
		m = n
	}
	noise := run.Pick(r, 0, 0, 1e-9)
	var in []Point
	put := 0
	for i := 0; i < m; i++ {
		a, b := cs[i], cs[(i+1)%n]
		if a.Dist(b) < 0.3 {
			c.Skip("short line")
		}
		in = append(in, pt(a))
		k := 0
		if r.Intn(2) == 0 {
			k = 1 + r.Intn(5)
		}
		for j := 1; j <= k; j++ {
			t := float64(j) / float64(k+1)
			if k < 4 { // not equally spaced
				t += 0.1 * (r.Float64() - 0.5) / float64(k+1)
			}
			q := a.Lerp(b, t).Add(geo.V3{noise * (2*r.Float64() - 1), noise * (2*r.Float64() - 1), noise * (2*r.Float64() - 1)})
			in = append(in, pt(q))
			put++
		}
	}
	var want []Point
	for _, p := range cs {
		want = append(want, pt(p))
	}
	if closed {
		want = append(want, want[0])
		s := 0
		if r.Intn(2) == 0 {
			s = r.Intn(len(in))
		}
		in = append(append([]Point(nil), in[s:]...), in[:s]...)
		if in[0] != want[0] {
			isCorner := false
			for _, w := range want {
				isCorner = isCorner || w == in[0]
			}
			if !isCorner {
				c.Event("closed paths starting inside a line", 1)
			}
		}
		in = append(in, in[0])
		c.Event("closed paths", 1)
	} else {
		in = append(in, pt(cs[n-1]))
		c.Event("open paths", 1)
	}
	given := append([]Point(nil), in...)
	var got Path
	if r.Intn(4) == 0 { // cut in lines, shuffled, joined and merged
		var ps []Path
		for i := 1; i < len(in); i++ {
			ps = append(ps, Path{Points: []Point{in[i-1], in[i]}})
		}
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		out := JoinPaths3AndMinimize(ps)
		c.Check(len(out) == 1, "%d lines of one path are joined to %d paths", len(in)-1, len(out))
		got = out[0]
		c.Event("joined and merged", 1)
	} else {
		got = Path{Points: in}.MinimizeLines()
		c.Check(samePts(in, given), "the input is modified")
	}
	if closed {
		c.Check(cyclic(got.Points, want), "merging collinear lines of the closed path %v gives %v, the corners are %v", given, got.Points, want)
	} else {
		c.Check(samePts(got.Points, want), "merging collinear lines of %v gives %v, the corners are %v", given, got.Points, want)
	}
	again := Path{Points: append([]Point(nil), got.Points...)}.MinimizeLines()
	c.Check(samePts(again.Points, got.Points), "the second merge changes %v to %v", got.Points, again.Points)
	c.Event("collinear points removed", put)
	c.Event("corners kept", len(cs))
	c.Distinct("%v", given)
}

// dense paths of lines not shorter than 0.01: what is removed is close to what is left
func c17dense(c *run.Case, f frame) {
	r := c.R
	var ps []geo.V3
	closed := r.Intn(2) == 0
	if closed {
		n := 10 + r.Intn(250)
		if r.Intn(60) == 0 {
			n = 300 + r.Intn(1700)
		}
		rad := float64(n) * (0.011 + 0.2*r.Float64()*r.Float64()) / (2 * math.Pi)
		ecc := 1 + r.Float64()
		wob := 0.1 * r.Float64()
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			rr := rad * (1 + wob*math.Sin(5*a))
			ps = append(ps, f.at(geo.P2{ecc * rr * math.Cos(a), rr * math.Sin(a)}))
		}
		ps = append(ps, ps[0])
	} else {
		step := 0.01 + 0.3*r.Float64()*r.Float64()
		dir, turn := r.Float64()*6, 0.
		p := geo.P2{}
		amp := math.Pow(10, -5*r.Float64())
		for i, n := 0, 3+r.Intn(200); i < n; i++ {
			ps = append(ps, f.at(p))
			turn = turn*0.9 + amp*(2*r.Float64()-1)
			dir += math.Max(-1.5, math.Min(1.5, turn))
			l := step * (1 + r.Float64())
			p = geo.P2{p[0] + l*math.Cos(dir), p[1] + l*math.Sin(dir)}
		}
	}
	for i := 1; i < len(ps); i++ {
		if ps[i].Dist(ps[i-1]) < 0.01 {
			c.Skip("short line")
		}
	}
	var in []Point
	for _, p := range ps {
		in = append(in, pt(p))
	}
	given := append([]Point(nil), in...)
	got := Path{Points: in}.MinimizeLines().Points
	c.Check(samePts(in, given), "the input is modified")
	c.Check(len(got) >= 2, "%d points of %d are left", len(got), len(in))
	// subset in order, cyclic for closed paths
	search := given
	g := got
	if closed {
		c.Check(got[0].Equal(got[len(got)-1]), "closed path is open after merging")
		search = append(append([]Point(nil), given[:len(given)-1]...), given...)
		g = got[:len(got)-1]
	} else {
		c.Check(got[0] == given[0] && got[len(got)-1] == given[len(given)-1], "ends of a path are changed")
	}
	k := 0
	for k < len(search) && search[k] != g[0] {
		k++
	}
	for _, p := range g {
		for k < len(search) && search[k] != p {
			k++
		}
		c.Check(k < len(search), "point %v of the merged path is not there, or not in this order, in the original", p)
		k++
	}
	w, at := geo.MaxDist(pathSegs([]Path{{Points: given}}), pathSegs([]Path{{Points: got}}))
	c.Check(w <= 0.002, "the merged path is %v away from %v of the original", w, at)
	c.Event("dense paths", 1)
	c.Event("collinear points removed", len(given)-len(got))
	c.Distinct("%v", given)
}

func randLoop2(r *rand.Rand) []geo.P2 {
	for {
		var p []geo.P2
		switch r.Intn(4) {
		case 0:
			p = geo.RegularPoly(3+r.Intn(20), 5, r.Float64()*6)
		case 1:
			p = geo.StarPoly(r, 4+r.Intn(10), 4, 9)
		case 2:
			p = geo.ConvexPoly(r, 3+r.Intn(8), 5, 4+6*r.Float64())
		default:
			p = geo.NamedPoly(run.Pick(r, "L", "U", "T", "plus"))
		}
		s := 0.3 + 3*r.Float64()
		for i := range p {
			p[i] = geo.P2{p[i][0] * s, p[i][1] * s}
		}
		k := r.Intn(len(p))
		p = append(append([]geo.P2(nil), p[k:]...), p[:k]...)
		if r.Intn(2) == 0 {
			p = reversed(p)
		}
		return p
	}
}

// ---- C18

func c18(c *run.Case) {
	r := c.R
	f := randFrame(r, 100)
	n := run.Pick(r, 2, 3, 4, 2+r.Intn(10), 2+r.Intn(10), 2+r.Intn(150), 2+r.Intn(10), 2+r.Intn(150), run.Pick(r, 20, 20, 1500))
	var ps []geo.V3
	kind := r.Intn(7)
	switch kind {
	case 0: // random points
		for i := 0; i < n; i++ {
			ps = append(ps, f.o.Add(geo.V3{10 * r.Float64(), 10 * r.Float64(), 10 * r.Float64()}))
		}
	case 1: // random walk
		p := f.o
		for i := 0; i < n; i++ {
			ps = append(ps, p)
			p = p.Add(geo.V3{r.NormFloat64(), r.NormFloat64(), 0.5 + r.NormFloat64()})
		}
	case 2: // smooth
		w := 1 + 10*r.Float64()
		for i := 0; i < n; i++ {
			t := float64(i) / float64(n)
			ps = append(ps, f.at(geo.P2{20 * t, math.Sin(w*t) * 3}).Add(f.n.Mul(math.Cos(w*t))))
		}
	case 3: // straight
		d := geo.RandomDir(r)
		t := 0.
		for i := 0; i < n; i++ {
			ps = append(ps, f.o.Add(d.Mul(t)))
			t += 0.01 + r.Float64()
		}
		c.Event("straight lines", 1)
	case 4: // closed
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			rr := 3 + r.Float64()
			ps = append(ps, f.at(geo.P2{rr * math.Cos(a), rr * math.Sin(a)}))
		}
		ps = append(ps, ps[0])
		c.Event("closed lines", 1)
	case 5: // integer points, repeated ones and equal distances
		for i := 0; i < n; i++ {
			ps = append(ps, geo.V3{float64(r.Intn(4)), float64(r.Intn(4)), float64(r.Intn(4))})
		}
	case 6:
		n = r.Intn(2)
		for i := 0; i < n; i++ {
			ps = append(ps, f.o)
		}
	}
	eps := run.Pick(r, 0, 0.01, 0.1, 0.5, 1, 2, 10*r.Float64(), math.Pow(10, -6*r.Float64()), 100)
	var in []Point
	for _, p := range ps {
		in = append(in, pt(p))
	}
	given := append([]Point(nil), in...)
	got := helpers.SimplifyLine(in, eps)
	c.Check(samePts(in, given), "the input is changed")
	c.Distinct("%v %v", given, eps)
	if len(ps) == 0 {
		c.Check(len(got) == 0, "no points are simplified to %v", got)
		c.Event("no points", 1)
		return
	}
	c.Check(len(got) > 0 && got[0] == given[0] && got[len(got)-1] == given[len(given)-1], "ends are not kept: %v -> %v", given, got)
	if len(ps) == 1 {
		for _, p := range got {
			c.Check(p == given[0], "a point is simplified to %v", got)
		}
		c.Event("one point", 1)
		return
	}
	// positions of kept points; points may be repeated, then try the positions one by one
	seen := map[Point]bool{}
	distinct := true
	for _, p := range given {
		distinct = distinct && !seen[p]
		seen[p] = true
	}
	if kind == 4 { // only the ends are equal
		distinct = true
	}
	if !distinct {
		c.Event("lines with repeated points", 1)
		k := 0
		for _, p := range got {
			for k < len(given) && given[k] != p {
				k++
			}
			c.Check(k < len(given), "%v is not a subset of %v in its order", got, given)
			k++
		}
		c.Check(len(got) <= len(given), "more points than in the original")
		return
	}
	kept := make([]bool, len(given))
	k := 0
	for i, p := range got {
		if i == len(got)-1 {
			k = len(given) - 1
			kept[k] = true
			break
		}
		for k < len(given)-1 && given[k] != p {
			k++
		}
		c.Check(k < len(given)-1, "%v is not a subset of %v in its order", got, given)
		kept[k] = true
		k++
	}
	scale := 0.
	for _, p := range ps {
		scale = math.Max(scale, p.Len())
	}
	d := dp{c, ps, kept, eps, 1e-12*scale + 1e-13, 0}
	msg := d.verify(0, len(ps)-1)
	c.Check(msg == "", "epsilon %v: %s: %v -> %v", eps, msg, given, got)
	c.Event("points kept", len(got))
	c.Event("points removed", len(given)-len(got))
	c.Event("splits verified", len(got)-1)
}

type dp struct {
	c     *run.Case
	ps    []geo.V3
	kept  []bool
	eps   float64
	tol   float64
	depth int
}

// verify checks the choice of kept points between i and j with the definition of the algorithm, any choice between
// equally far points is right.
func (d *dp) verify(i, j int) string {
	max := 0.
	dist := make([]float64, j-i+1)
	any := -1
	for k := i + 1; k < j; k++ {
		dist[k-i] = geo.LineDist(d.ps[k], d.ps[i], d.ps[j])
		if d.ps[i].Dist(d.ps[j]) == 0 {
			dist[k-i] = d.ps[k].Dist(d.ps[i])
		}
		max = math.Max(max, dist[k-i])
		if d.kept[k] {
			any = k
		}
	}
	if any < 0 {
		if max > d.eps+d.tol {
			return "a point between points " + itoa(i) + " and " + itoa(j) + " is removed, but it is " + fdot(max) + " away from their line"
		}
		return ""
	}
	if max < d.eps-d.tol {
		return "point " + itoa(any) + " between " + itoa(i) + " and " + itoa(j) + " is kept, but all are within " + fdot(max)
	}
	msg := "none of the points farthest from the line of points " + itoa(i) + " and " + itoa(j) + " is kept"
	tries := 0
	for k := i + 1; k < j; k++ {
		if d.kept[k] && dist[k-i] >= max-d.tol {
			if tries++; tries > 3 {
				return ""
			}
			m := d.verify(i, k)
			if m == "" {
				m = d.verify(k, j)
			}
			if m == "" {
				return ""
			}
			msg = m
		}
	}
	return msg
}

// ---- C24

func c24(c *run.Case) {
	r := c.R
	f := randFrame(r, run.Pick(r, 0., 10, 200))
	if (f.n[0] == 0) != (f.n[1] == 0) && f.n[2] != 0 {
		c.Event("contours in tilted planes along an axis", 1)
	}
	if f.n[2] == 0 {
		c.Event("contours in vertical planes", 1)
	} else if f.n[0] != 0 || f.n[1] != 0 {
		c.Event("contours in tilted planes", 1)
	}
	grid := r.Intn(3) == 0
	poly := randLoop2(r)
	if r.Intn(25) == 0 { // many corners
		n := 60 + r.Intn(run.Pick(r, 150, 150, 1000))
		k, amp, s := float64(2+r.Intn(9)), 0.4*r.Float64(), run.Pick(r, 5., 30)
		poly = geo.RegularPoly(n, 1, r.Float64())
		for i, q := range poly {
			l := s * (1 + amp*math.Sin(k*math.Atan2(q[1], q[0])))
			poly[i] = geo.P2{q[0] * l, q[1] * l}
		}
		if r.Intn(2) == 0 {
			poly = reversed(poly)
		}
		grid = false
		c.Event("contours of many points", 1)
	} else if r.Intn(12) == 0 {
		s := math.Pow(10, -0.5-1.5*r.Float64())
		for i := range poly {
			poly[i] = geo.P2{poly[i][0] * s, poly[i][1] * s}
		}
		grid = false
		c.Event("small contours", 1)
	}
	if grid { // integer coordinates: points level with vertices and edges
		q := geo.NamedPoly(run.Pick(r, "L", "U", "T", "plus"))
		k := r.Intn(len(q))
		poly = append(append([]geo.P2(nil), q[k:]...), q[:k]...)
		if r.Intn(2) == 0 {
			poly = reversed(poly)
		}
		if r.Intn(2) == 0 {
			f.o = geo.V3{math.Round(f.o[0]), math.Round(f.o[1]), math.Round(f.o[2])}
		}
	}
	if r.Intn(3) == 0 { // additional points on lines
		var q []geo.P2
		for i, a := range poly {
			b := poly[(i+1)%len(poly)]
			q = append(q, a)
			if r.Intn(2) == 0 {
				q = append(q, geo.P2{(a[0] + b[0]) / 2, (a[1] + b[1]) / 2})
			}
		}
		poly = q
	}
	loop := f.loop(poly)
	path := polyPath(loop, true)
	c.Distinct("%v", path.Points)
	lo, hi := poly[0], poly[0]
	for _, p := range poly {
		lo = geo.P2{math.Min(lo[0], p[0]), math.Min(lo[1], p[1])}
		hi = geo.P2{math.Max(hi[0], p[0]), math.Max(hi[1], p[1])}
	}
	segs2 := func(q geo.P2) (in bool, d float64) {
		d = math.Inf(1)
		for i, a := range poly {
			b := poly[(i+1)%len(poly)]
			d = math.Min(d, geo.SegDist(geo.V3{q[0], q[1], 0}, geo.V3{a[0], a[1], 0}, geo.V3{b[0], b[1], 0}))
			if (a[1] > q[1]) != (b[1] > q[1]) && q[0] < a[0]+(q[1]-a[1])/(b[1]-a[1])*(b[0]-a[0]) {
				in = !in
			}
		}
		return
	}
	for i := 0; i < 25; i++ {
		q := geo.P2{lo[0] + (hi[0]-lo[0])*(1.2*r.Float64()-0.1), lo[1] + (hi[1]-lo[1])*(1.2*r.Float64()-0.1)}
		level := r.Intn(2) == 0
		if level {
			// level with a vertex across the direction of some line of the contour, mostly of the first one
			k := 0
			if r.Intn(3) == 0 {
				k = r.Intn(len(poly))
			}
			a, b := poly[k], poly[(k+1)%len(poly)]
			v := poly[r.Intn(len(poly))]
			l := math.Hypot(b[0]-a[0], b[1]-a[1])
			nx, ny := -(b[1]-a[1])/l, (b[0]-a[0])/l
			if r.Intn(3) == 0 {
				nx, ny = -ny, nx
			}
			t := (hi[0] - lo[0] + hi[1] - lo[1]) * (r.Float64() - 0.5)
			if grid {
				t = math.Round(t*2) / 2
			}
			q = geo.P2{v[0] + nx*t, v[1] + ny*t}
		}
		in, d := segs2(q)
		if d < 1e-5 {
			continue
		}
		got := pt(f.at(q)).Inside(path)
		c.Check(got == in, "Inside=%v for %v, %v from the contour %v; has to be %v", got, pt(f.at(q)), d, path.Points, in)
		if in {
			c.Event("points inside", 1)
		} else {
			c.Event("points outside", 1)
		}
		if level {
			c.Event("points level with a vertex", 1)
		}
	}
	// centroid
	var a, cx, cy float64
	o := poly[0]
	for i := range poly {
		p, q := poly[i], poly[(i+1)%len(poly)]
		p, q = geo.P2{p[0] - o[0], p[1] - o[1]}, geo.P2{q[0] - o[0], q[1] - o[1]}
		k := p[0]*q[1] - p[1]*q[0]
		a += k / 2
		cx += (p[0] + q[0]) * k / 6
		cy += (p[1] + q[1]) * k / 6
	}
	want := f.at(geo.P2{o[0] + cx/a, o[1] + cy/a})
	smallest := math.Inf(1)
	okc := true
	for k := 0; k < 3; k++ {
		pa := math.Abs(a * f.n[k])
		if pa > 1e-7 && pa < 1e-5 {
			okc = false
		}
		if pa >= 1e-5 {
			smallest = math.Min(smallest, pa)
		}
	}
	R := 0.
	for _, p := range loop {
		R = math.Max(R, p.Len())
	}
	tol := 1e-6 + 1e-14*R*R*R*float64(len(loop))/smallest
	if okc && tol < 1e-2 {
		before := append([]Point(nil), path.Points...)
		got := FindCentroid(path)
		c.Check(v3(got).Dist(want) <= tol, "centroid of %v is %v, has to be %s", path.Points, got, vstr(want))
		c.Check(samePts(before, path.Points), "path is modified")
		c.Event("centroids", 1)
	}
	// winding
	if f.n[0] == 0 && f.n[1] == 0 {
		cw := a*f.n[2] < 0
		for _, p := range []Path{path, {Points: path.Points[:len(path.Points)-1]}} {
			c.Check(p.IsWindingCW() == cw, "IsWindingCW of %v is %v", p.Points, !cw)
			c.Check(p.IsSolid() == cw && p.IsHole() == !cw, "IsSolid %v, IsHole %v, clockwise %v: %v", p.IsSolid(), p.IsHole(), cw, p.Points)
			rev := p.Reverse()
			c.Check(rev.IsWindingCW() == !cw && rev.IsHole() == cw && rev.IsSolid() == !cw, "the reversed path has the same winding: %v", p.Points)
			c.Event("windings", 1)
		}
	}
	// reverse and close
	open := Path{Points: append([]Point(nil), path.Points[:len(path.Points)-1]...)}
	rev := open.Reverse()
	c.Check(len(rev.Points) == len(open.Points), "reversed path has other number of points")
	for i, p := range rev.Points {
		c.Check(p == open.Points[len(open.Points)-1-i], "reversed path is wrong at %d", i)
	}
	c.Check(samePts(rev.Reverse().Points, open.Points) && open.Reverse().Reverse().Equal(open), "path reversed twice is another path")
	c.Event("reversals", 1)
	c.Check(path.IsClosed() && !open.IsClosed(), "IsClosed is wrong: %v, %v", path.IsClosed(), open.IsClosed())
	c.Check(samePts(path.Close().Points, path.Points), "closing changes a closed path: %v", path.Points)
	c.Check(samePts(open.Close().Points, path.Points), "closing %v gives %v", open.Points, open.Close().Points)
	c.Check(len(open.Points) == len(path.Points)-1, "closing changes its input")
	// the last point close to the first one, but another
	gap := math.Pow(10, -1-3.5*r.Float64())
	almost := Path{Points: append(append([]Point(nil), open.Points...), pt(f.at(geo.P2{poly[0][0] + gap, poly[0][1] - gap})))}
	c.Check(!almost.IsClosed(), "a path with the gap of %v is closed", gap)
	c.Check(samePts(almost.Close().Points, append(append([]Point(nil), almost.Points...), almost.Points[0])), "closing a path with the gap of %v gives %v", gap, almost.Close().Points)
	c.Event("paths closed", 1)
}
