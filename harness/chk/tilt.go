//go:build !only || C26

package chk

import (
	"fmt"
	"math"
	"math/rand"

	"verif/geo"
	"verif/run"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

func init() {
	run.Register(&run.Property{ID: "C26", Level: "exploration", Quick: 3000, Full: 80000, Min: 1500, CPU: 60,
		Must: []string{"upright models", "layers equal to those of 3 axes", "leaning columns", "leaning columns with leaning parts", "straight axes", "bent axes", "parts with their axis compared", "columns that lean several times", "layers of parts that lean again", "upright layers between leaning parts", "leaning legs", "one leaning leg", "flaring bodies", "upright legs", "upright rotation bodies", "points below the cut"},
		Rule: "a case is a model with walls close to the vertical, a column that leans by 50 to 65 degrees, two such legs, a flaring body of rotation, or a column along a bent axis, a mode and settings; distinct by model, mode and settings",
		Run:  c26})
}

// up is the direction of the model that is vertical in the pose.
func (p poseOf) up() geo.V3 { return turnZ(lean(geo.V3{0, 0, 1}, p.t2), -p.t1) }

func angleBetween(a, b geo.V3) float64 {
	return math.Atan2(a.Cross(b).Len(), a.Dot(b)) * 180 / math.Pi
}

func tiltSettings(r *rand.Rand, t float64) slicers.Settings {
	s := stdSettings(r, t)
	s.GcodeSettings.LineWidth = 0.8
	s.WallThickness = run.Pick(r, 0.8, 1.6)
	s.FillDensity = run.Pick(r, 0, 0, 10)
	s.TopLayers, s.BottomLayers = r.Intn(2), r.Intn(2)
	s.SkirtLineCount = 0
	s.RotationCenter = randCentre(r) // is for planes only
	return s
}

func c26(c *run.Case) {
	switch c.I % 5 {
	case 0, 1:
		c26upright(c)
	case 2:
		if c.I%10 == 7 && c.R.Intn(2) == 0 {
			c26zigzag(c)
		} else {
			c26column(c)
		}
	case 3:
		c26axis(c)
	case 4:
		c26legs(c)
	}
}

// zs gives heights of n levels from 0 to h that are not too near to each other
func zs(r *rand.Rand, n int, h float64) []float64 {
	z := make([]float64, n)
	sum := 0.
	for i := 1; i < n; i++ {
		sum += 0.5 + r.Float64()
		z[i] = sum
	}
	for i := range z {
		z[i] *= h / sum
	}
	return z
}

func c26upright(c *run.Case) {
	r := c.R
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	var m *geo.IMesh
	kind := r.Intn(6)
	h := u(5, 20)
	switch kind {
	case 0: // any prism
		p, name := geo.StarPoly(r, 3+r.Intn(9), 2, 10), "star"
		if r.Intn(3) == 0 {
			name = run.Pick(r, "L", "U", "T")
			p = geo.NamedPoly(name)
		}
		m = geo.Loft(name+" prism", p, []float64{0, h}, geo.Ident2)
	case 1: // a ring
		n := 6 + r.Intn(20)
		m = geo.Ring("ring", geo.RegularPoly(n, u(6, 10), 0), geo.RegularPoly(n, u(2, 5), 0), h)
	case 2: // several prisms
		var ms []*geo.IMesh
		for i, k := 0, 2+r.Intn(3); i < k; i++ {
			ms = append(ms, geo.Loft("prism", geo.ConvexPoly(r, 4+r.Intn(9), u(2, 4), u(2, 4)), []float64{0, h * u(0.4, 1)}, geo.Ident2).Translate(geo.V3{10 * float64(i), u(-3, 3), 0}))
		}
		m = geo.Union(ms...)
	case 3, 4: // round ones with walls within 30 degrees of the vertical
		n := 8 + r.Intn(24)
		z := zs(r, 2+r.Intn(5), h)
		q := make([]float64, len(z))
		q[0] = u(4, 10)
		for i := 1; i < len(z); i++ {
			q[i] = math.Max(1, q[i-1]+(z[i]-z[i-1])*math.Tan(u(-30, 30)*math.Pi/180))
		}
		m = geo.Loft("vase", geo.RegularPoly(n, 1, r.Float64()), z, func(l int, p geo.P2) geo.P2 { return geo.P2{p[0] * q[l], p[1] * q[l]} })
		c.Event("upright rotation bodies", 1)
	case 5: // round columns that lean by less than 30 degrees
		a, b := u(0, math.Tan(30*math.Pi/180)), u(0, 2*math.Pi)
		m = geo.Loft("leaning prism", geo.RegularPoly(8+r.Intn(20), u(2, 5), r.Float64()), []float64{0, h}, func(l int, p geo.P2) geo.P2 {
			return geo.P2{p[0] + float64(l)*h*a*math.Cos(b), p[1] + float64(l)*h*a*math.Sin(b)}
		})
	}
	if kind == 2 {
		c.Event("upright legs", 1)
	}
	m = m.Rotate(geo.AxisAngle(geo.V3{0, 0, 1}, 360*r.Float64())).Translate(geo.V3{20 * (r.Float64() - 0.5), 20 * (r.Float64() - 0.5), 0}).Shuffle(r)
	t := h / u(6, 30)
	s := tiltSettings(r, t)
	s.Epsilon = 0.5
	mode := run.Pick(r, "5axes", "vip")
	if kind < 2 && r.Intn(3) == 0 {
		mode = "5axes_by_profile"
	}
	what := fmt.Sprintf("%s of an upright %s (layers of %.4g)", mode, m.Name, t)
	c.Distinct("%v %v %s", m.V, t, mode)
	c.Sample("%s", what)
	mesh := toMesh(m)
	g := sliceMode(mode, copyMesh(mesh), s)
	ls, moves := posedLayers(c, &g, what)
	if mode == "5axes_by_profile" {
		for i, l := range ls {
			c.Check(angleBetween(l.pose.up(), geo.V3{0, 0, 1}) < 0.01, "%s: layer %d is printed with the bed inclined by %v", what, i, l.pose.t2)
		}
		c.Check(moves == 1, "%s: the pose of the bed is set %d times", what, moves)
		c.Event("upright models", 1)
		return
	}
	c.Check(moves == 0, "%s: the bed is moved %d times", what, moves)
	ref := slicers.SliceByVector(mesh, AxisZ, s)
	c.Check(len(ref) == len(ls), "%s: %d layers, in 3 axes it has %d", what, len(ls), len(ref))
	for i, l := range ls {
		a, b := pathSegs(l.l.Paths), pathSegs(ref[i].Paths)
		if len(a) == 0 && len(b) == 0 {
			continue
		}
		c.Check(len(a) > 0 && len(b) > 0, "%s: layer %d has %d lines in contours, in 3 axes it has %d", what, i, len(a), len(b))
		d, p := geo.MaxDist(a, b)
		c.Check(d < 3e-3, "%s: layer %d has a contour at %v, in 3 axes it does not", what, i, p)
		d, p = geo.MaxDist(b, a)
		c.Check(d < 3e-3, "%s: layer %d has no contour at %v, in 3 axes it does", what, i, p)
		c.Event("layers equal to those of 3 axes", 1)
	}
	c.Event("upright models", 1)
}

func c26column(c *run.Case) {
	r := c.R
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	h := u(10, 20)
	a, b := u(50, 65), u(0, 2*math.Pi)
	n := 6 + r.Intn(7)
	dir := geo.V3{math.Cos(b), math.Sin(b), 0}
	off := h * math.Tan(a*math.Pi/180)
	rad := u(2, 5)
	lh := math.Min(h/u(10, 30), 0.4*rad/math.Tan(a*math.Pi/180))
	if r.Intn(4) == 0 { // the centre of a layer is outside of the layer before
		lh = h / u(10, 30)
		rad = lh * math.Tan(a*math.Pi/180) / u(1.1, 2.5)
	}
	zs := []float64{0, h}
	kinked := r.Intn(3) == 0
	if kinked { // only the top leans, sometimes just a few layers of it
		k := math.Max(h*r.Float64(), 2.1*lh)
		if r.Intn(2) == 0 {
			k = lh * u(2.1, 4)
		}
		zs = []float64{0, h - k, h}
		off *= k / h
		c.Event("columns that lean at the top", 1)
	}
	m := geo.Loft("leaning column", geo.RegularPoly(n, rad, r.Float64()), zs, func(l int, p geo.P2) geo.P2 {
		k := 0.
		if l == len(zs)-1 {
			k = off
		}
		return geo.P2{p[0] + k*dir[0], p[1] + k*dir[1]}
	})
	m = m.Translate(geo.V3{20 * (r.Float64() - 0.5), 20 * (r.Float64() - 0.5), 0}).Shuffle(r)
	s := tiltSettings(r, lh)
	mode := run.Pick(r, "5axes", "vip")
	what := fmt.Sprintf("%s of a column that leans by %.4g degrees to %.4g (layers of %.4g)", mode, a, b*180/math.Pi, s.LayerHeight)
	c.Distinct("%v %v %s", m.V, s.LayerHeight, mode)
	c.Sample("%s", what)
	if s.LayerHeight*math.Tan(a*math.Pi/180) > 2*rad {
		c.Event("columns whose layers do not overlap", 1)
	}
	g := sliceMode(mode, toMesh(m), s)
	ls, _ := posedLayers(c, &g, what)
	if kinked {
		what += fmt.Sprintf(" above %.4g of %.4g", zs[1], h)
	}
	judgeTilt(c, what, m, ls, []geo.V3{dir}, s.LayerHeight, !kinked, kinked)
	c.Event("leaning columns", 1)
}

// c26zigzag: a column that leans, goes up and leans again; the bed follows it forth and back every time. Directions
// are those the code tries, and parts of the column lean to nearly the same side: a wedge that a cut leaves otherwise,
// or a plane that meets a part above, makes the code move the bed much more often than needed.
func c26zigzag(c *run.Case) {
	r := c.R
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	rad := u(3, 4)
	b := float64(r.Intn(36)) * math.Pi / 18
	z, pos, dirs := []float64{0}, []geo.P2{{0, 0}}, []geo.V3{}
	add := func(h, a, b float64) {
		k := math.Tan(a * math.Pi / 180)
		d := geo.V3{k * math.Cos(b), k * math.Sin(b), 1}
		l := len(z) - 1
		z = append(z, z[l]+h)
		pos = append(pos, geo.P2{pos[l][0] + h*d[0], pos[l][1] + h*d[1]})
		dirs = append(dirs, d)
	}
	n := 2 + r.Intn(2)
	for k := 0; k < n; k++ {
		if k > 0 {
			add(u(12, 18), 0, 0)
		}
		d := 0
		if k > 0 {
			d = r.Intn(9) - 4
		}
		if n > 2 { // only along symmetries of the section
			d = d / 3 * 3
		}
		add(u(14, 18), u(59, 60.5), b+float64(d)*math.Pi/18)
	}
	m := geo.Loft("zigzag column", geo.RegularPoly(12, rad, b), z, func(l int, p geo.P2) geo.P2 { return geo.P2{p[0] + pos[l][0], p[1] + pos[l][1]} })
	m = m.Translate(geo.V3{20 * (r.Float64() - 0.5), 20 * (r.Float64() - 0.5), 0}).Shuffle(r)
	s := tiltSettings(r, u(0.25, 0.4))
	mode := run.Pick(r, "5axes", "vip")
	what := fmt.Sprintf("%s of a column with the axis %v (heights %.4g, layers of %.4g)", mode, dirs, z, s.LayerHeight)
	c.Distinct("%v %v %s", m.V, s.LayerHeight, mode)
	c.Sample("%s", what)
	g := sliceMode(mode, toMesh(m), s)
	ls, _ := posedLayers(c, &g, what)
	seen, off, last := make([]int, len(dirs)), make([]int, len(dirs)), ""
	for i, l := range ls {
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, e := range pathSegs(l.l.Paths) {
			p := turnZ(lean(e.A, l.pose.t2), -l.pose.t1)
			lo, hi = math.Min(lo, p[2]), math.Max(hi, p[2])
		}
		for k, d := range dirs {
			if lo < z[k]+1.2*rad || hi > z[k+1]-1.2*rad || lo > hi { // bends are printed in both poses
				continue
			}
			seen[k]++
			want := 60.
			if d[0] == 0 && d[1] == 0 {
				want = 0
				c.Event("upright layers between leaning parts", 1)
			} else if k > 0 {
				c.Event("layers of parts that lean again", 1)
			}
			if a := angleBetween(l.pose.up(), d); a > 35 || !near(l.pose.t2, want, 1e-9) {
				off[k]++
				last = fmt.Sprintf("layer %d, from %.4g to %.4g, is printed with the bed turned by %v and inclined by %v, %.4g degrees off the axis of this part", i, lo, hi, l.pose.t1, l.pose.t2, a)
			}
		}
	}
	for k, n := range seen { // some after a bend are printed in the pose of the part before it
		c.Check(off[k] <= n/4, "%s: %d of %d layers between %.4g and %.4g are printed in a wrong pose: %s", what, off[k], n, z[k], z[k+1], last)
		c.Check(n > 0, "%s: no layer between %.4g and %.4g", what, z[k], z[k+1])
	}
	c.Event("columns that lean several times", 1)
}

// judgeTilt: leaning parts are printed with the bed inclined by 60 degrees and turned to the side they lean to.
func judgeTilt(c *run.Case, what string, m *geo.IMesh, ls []posedLayer, dirs []geo.V3, t float64, single, kinked bool) {
	side := 30.
	if kinked { // a layer with the kink below it leans less than the column, at some corners more than at others
		side = 80
	}
	tilted := 0
	first := poseOf{}
	for i, l := range ls {
		if l.pose.t2 == 0 {
			continue
		}
		tilted++
		if tilted == 1 {
			first = l.pose
		}
		if l.pose != first { // ends of the column that are left after several cuts may lean to other sides
			continue
		}
		up := l.pose.up()
		c.Check(near(l.pose.t2, 60, 1e-9), "%s: layer %d is printed with the bed inclined by %v", what, i, l.pose.t2)
		best := 180.
		for _, d := range dirs {
			best = math.Min(best, angleBetween(up.Sub(geo.V3{0, 0, up[2]}), d))
		}
		c.Check(best < side, "%s: layer %d is printed with the bed turned so that %v is vertical, %.4g degrees off the side to which the model leans", what, i, up, best)
	}
	c.Check(tilted > 0, "%s: all %d layers are printed without inclining the bed", what, len(ls))
	c.Event("leaning columns with leaning parts", 1)
	if !single { // other bodies can be anywhere
		return
	}
	// what is printed before is below a plane through the first layer that is parallel to the leaning layers
	n, top := first.up(), math.Inf(-1)
	for _, v := range m.V {
		if v[2] < 1e-9 {
			top = math.Max(top, v.Dot(n))
		}
	}
	for i := 0; i < len(ls) && ls[i].pose.t2 == 0; i++ {
		for _, e := range pathSegs(ls[i].l.Paths) {
			h := e.A.Dot(n) - top
			c.Check(h < 2*t, "%s: the point %v of layer %d is printed without inclining the bed, but it is %.4g above the plane through the first layer parallel to the leaning layers", what, e.A, i, h)
			c.Event("points below the cut", 1)
		}
	}
}

func c26legs(c *run.Case) {
	r := c.R
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	var m *geo.IMesh
	var dirs []geo.V3
	maxT := 5.
	h := u(8, 15)
	b := u(0, 2*math.Pi)
	name := ""
	kinked, lh := false, 0.
	if r.Intn(2) == 0 { // two legs that lean to each other
		name = "two legs"
		a := math.Tan(u(50, 62) * math.Pi / 180)
		rad := u(1.5, 3)
		maxT = 0.4 * rad / a
		d := h*a + rad*1.2 + u(1, 4)
		n := 6 + r.Intn(8)
		levels, top := []float64{0, h}, h
		if r.Intn(4) == 0 { // only the top leans, sometimes just a few layers of it
			kinked = true
			lh = math.Min(h/u(8, 25), maxT)
			top = math.Max(h*r.Float64(), 2.1*lh)
			if r.Intn(2) == 0 {
				top = lh * u(2.1, 4)
			}
			levels = []float64{0, h - top, h}
			d = top*a + rad*1.2 + u(1, 4)
			name += fmt.Sprintf(" above %.4g of %.4g", h-top, h)
			c.Event("legs that lean at the top", 1)
		}
		var ms []*geo.IMesh
		straight := 2 // the second of the legs is upright
		if r.Intn(2) == 0 {
			straight = r.Intn(2)
			name = "a leaning leg and an upright one" + name[len("two legs"):]
			c.Event("one leaning leg", 1)
		}
		for i, s := range []float64{-1, 1} {
			dir := geo.V3{s * math.Cos(b), s * math.Sin(b), 0}
			ms = append(ms, geo.Loft("leg", geo.RegularPoly(n, rad, r.Float64()), levels, func(l int, p geo.P2) geo.P2 {
				k := -d
				if l == len(levels)-1 && i != straight {
					k += top * a
				}
				return geo.P2{p[0] + k*dir[0], p[1] + k*dir[1]}
			}))
			if i != straight {
				dirs = append(dirs, dir)
			}
		}
		if r.Intn(2) == 0 {
			ms[0], ms[1] = ms[1], ms[0]
		}
		m = geo.Union(ms...)
		c.Event("leaning legs", 1)
	} else {
		name = "flaring body"
		n := 16 + r.Intn(20)
		q := u(3, 6)
		k := math.Tan(u(50, 65) * math.Pi / 180)
		z0 := u(0, 5)
		z, q1 := []float64{0, z0, z0 + h}, []float64{q, q, q + h*k}
		if z0 < 0.5 {
			z, q1 = []float64{0, h}, []float64{q, q + h*k}
		}
		m = geo.Loft("flare", geo.RegularPoly(n, 1, r.Float64()), z, func(l int, p geo.P2) geo.P2 { return geo.P2{p[0] * q1[l], p[1] * q1[l]} })
		c.Event("flaring bodies", 1)
	}
	m = m.Translate(geo.V3{20 * (r.Float64() - 0.5), 20 * (r.Float64() - 0.5), 0}).Shuffle(r)
	if !kinked {
		lh = math.Min(h/u(8, 25), maxT)
	}
	s := tiltSettings(r, lh)
	mode := run.Pick(r, "5axes", "vip", "vip")
	what := fmt.Sprintf("%s of %s (layers of %.4g)", mode, name, s.LayerHeight)
	c.Distinct("%v %v %s", m.V, s.LayerHeight, mode)
	c.Sample("%s", what)
	g := sliceMode(mode, toMesh(m), s)
	ls, _ := posedLayers(c, &g, what)
	if len(dirs) == 0 { // any side of a flare
		dirs = nil
		tilted := 0
		for i, l := range ls {
			if l.pose.t2 != 0 {
				tilted++
				c.Check(near(l.pose.t2, 60, 1e-9), "%s: layer %d is printed with the bed inclined by %v", what, i, l.pose.t2)
			}
		}
		c.Check(tilted > 0, "%s: all %d layers are printed without inclining the bed", what, len(ls))
		return
	}
	judgeTilt(c, what, m, ls, dirs, s.LayerHeight, false, kinked)
}

func c26axis(c *run.Case) {
	r := c.R
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	h := u(10, 30)
	k := 1
	if r.Intn(2) == 0 {
		k = 2 + r.Intn(3)
	}
	z := zs(r, k+1, h)
	pos := make([]geo.P2, k+1)
	dirs := make([]geo.V3, k)
	maxTurn := 0.
	for i := range dirs {
		for {
			a, b := math.Tan(u(0, 55)*math.Pi/180), u(0, 2*math.Pi)
			dirs[i] = geo.V3{a * math.Cos(b), a * math.Sin(b), 1}
			if i == 0 || dirs[i].Dist(dirs[i-1]) > 0.5 {
				break
			}
		}
		if i > 0 {
			maxTurn = math.Max(maxTurn, dirs[i].Dist(dirs[i-1]))
		}
		d := z[i+1] - z[i]
		pos[i+1] = geo.P2{pos[i][0] + d*dirs[i][0], pos[i][1] + d*dirs[i][1]}
	}
	poly := geo.RegularPoly(5+r.Intn(12), u(1.5, 4), r.Float64())
	if r.Intn(2) == 0 {
		poly = geo.ConvexPoly(r, 4+r.Intn(8), u(1.5, 4), u(1.5, 4))
	}
	m := geo.Loft("column", poly, z, func(l int, p geo.P2) geo.P2 { return geo.P2{p[0] + pos[l][0], p[1] + pos[l][1]} })
	m = m.Translate(geo.V3{20 * (r.Float64() - 0.5), 20 * (r.Float64() - 0.5), 0}).Shuffle(r)
	n := u(20, 40)
	s := tiltSettings(r, h/n)
	s.Epsilon = math.Max(0.01, 1.05*s.LayerHeight*maxTurn)
	minSeg := h
	for i := range dirs {
		minSeg = math.Min(minSeg, z[i+1]-z[i])
	}
	if k > 1 { // every bend has to stand out
		if minSeg < 5*s.LayerHeight {
			c.Skip("short parts")
		}
		for i := 1; i < k; i++ {
			for x := 0; x < i; x++ {
				for y := i + 1; y <= k; y++ {
					A, B, P := geo.V3{pos[x][0], pos[x][1], z[x]}, geo.V3{pos[y][0], pos[y][1], z[y]}, geo.V3{pos[i][0], pos[i][1], z[i]}
					if geo.LineDist(P, A, B) < 2*s.Epsilon {
						c.Skip("flat bends")
					}
				}
			}
		}
	}
	what := fmt.Sprintf("5axes_by_profile of a column with the axis %v (heights %.4g, layers of %.4g, epsilon %.4g)", dirs, z, s.LayerHeight, s.Epsilon)
	c.Distinct("%v %v", m.V, s.LayerHeight)
	c.Sample("%s", what)
	g := sliceMode("5axes_by_profile", toMesh(m), s)
	ls, moves := posedLayers(c, &g, what)
	var parts []poseOf
	for i, l := range ls {
		if i == 0 || l.pose != parts[len(parts)-1] {
			parts = append(parts, l.pose)
		}
	}
	c.Check(len(parts) == k && moves == k, "%s: it is printed in %d poses, the bed is set %d times", what, len(parts), moves)
	for i, p := range parts {
		tol := 0.01
		if k > 1 {
			tol = math.Atan(2.2*s.LayerHeight*maxTurn/(z[i+1]-z[i]-s.LayerHeight))*180/math.Pi + 0.01
		}
		a := angleBetween(p.up(), dirs[i])
		c.Check(a < tol, "%s: part %d is printed with the bed inclined by %v and turned by %v, its axis is %.4g degrees off the vertical", what, i, p.t2, p.t1, a)
		c.Event("parts with their axis compared", 1)
	}
	if k == 1 {
		c.Event("straight axes", 1)
	} else {
		c.Event("bent axes", 1)
	}
}
