package chk

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() {
	run.Register(&run.Property{ID: "C07", Level: "exploration", Quick: 3000, Full: 60000, Min: 1500,
		Must: []string{"strokes", "fill lines compared", "full layers", "sparse layers", "layers with inner walls", "layers filled to the outer contour", "lines through a vertex of a contour", "models far from the origin", "layers without sparse fill", "leaning legs in changed poses", "Lines", "Squares", "Triangles", "parts in changed poses"},
		Rule: "a case is a random solid (or one with coordinates on the grid of the fill lines), moved around, with a fill type, density, line width, wall thickness and numbers of top and bottom layers, sliced in 3 axes, by planes or in vip without planes; distinct by mesh and settings",
		Run:  c07})
}

// planesFile writes a planes file; every line is in the format of the analyzer.
func planesFile(c *run.Case, lines ...string) string {
	f := filepath.Join(c.Tmp(), fmt.Sprintf("planes%d.txt", c.R.Int63()))
	s := ""
	for _, l := range lines {
		s += l + "\n"
	}
	must(os.WriteFile(f, []byte(s), 0644))
	return f
}

type ival struct{ a, b float64 }

// intervals of the line {p: p.n = o} inside the loops, along u
func lineInside(segs []geo.Seg, n, u geo.V3, o float64) []ival {
	var x []float64
	for _, s := range segs {
		a, b := s.A.Dot(n)-o, s.B.Dot(n)-o
		if (a > 0) != (b > 0) {
			x = append(x, s.A.Lerp(s.B, a/(a-b)).Dot(u))
		}
	}
	sort.Float64s(x)
	var out []ival
	for i := 1; i < len(x); i += 2 {
		out = append(out, ival{x[i-1], x[i]})
	}
	return out
}

func covered(t float64, iv []ival, grow float64) bool {
	for _, i := range iv {
		if t > i.a-grow && t < i.b+grow {
			return true
		}
	}
	return false
}

type fillLines struct {
	n, u  geo.V3
	phase float64
	known bool
}

// angle of a direction in [0,180)
func dirAngle(v geo.V3) float64 {
	a := math.Atan2(v[1], v[0]) * 180 / math.Pi
	a = math.Mod(a+720, 180)
	if a > 180-1e-4 {
		a -= 180
	}
	return a
}

// checkFill compares strokes of some layers with nd families of equidistant lines.
func checkFill(c *run.Case, what string, layers []Layer, region func(int) []geo.Seg, which []int, nd int, step float64) {
	fam := make([]fillLines, nd)
	base, have := 0.0, false
	longest := 0.0
	for _, i := range which { // direction of the longest stroke, the other ones have to fit
		for _, p := range layers[i].Fill {
			for k := 1; k < len(p.Points); k++ {
				v := v3(p.Points[k]).Sub(v3(p.Points[k-1]))
				if v.Len() > longest {
					longest, base, have = v.Len(), dirAngle(v), true
				}
			}
		}
	}
	if longest < 0.5 {
		have = false
	}
	for k := range fam {
		a := (base + 180*float64(k)/float64(nd)) * math.Pi / 180
		fam[k].u = geo.V3{math.Cos(a), math.Sin(a), 0}
		fam[k].n = geo.V3{-math.Sin(a), math.Cos(a), 0}
	}
	type stroke struct {
		o, a, b float64
	}
	st := map[int][][]stroke{}
	for _, i := range which {
		st[i] = make([][]stroke, nd)
		for _, p := range layers[i].Fill {
			c.Check(len(p.Points) >= 2, "%s: stroke with %d points", what, len(p.Points))
			for k := 1; k < len(p.Points); k++ {
				a, b := v3(p.Points[k-1]), v3(p.Points[k])
				c.Check(a.Finite() && b.Finite(), "%s: stroke from %v to %v", what, a, b)
				l := a.Dist(b)
				c.Event("strokes", 1)
				if l < 1e-3 {
					continue // direction is not known
				}
				if !have {
					c.Event("only very short strokes, not judged", 1)
					return
				}
				f := -1
				for q := range fam {
					if math.Abs(b.Sub(a).Dot(fam[q].n)) < 1e-4+1e-6*l {
						f = q
					}
				}
				c.Check(f >= 0, "%s, layer %d: stroke %v %v has an angle of %.6f, other ones %.6f and at 180/%d from it", what, i, a, b, dirAngle(b.Sub(a)), base, nd)
				o := a.Lerp(b, 0.5).Dot(fam[f].n)
				if !fam[f].known {
					fam[f].known, fam[f].phase = true, o
				}
				x := (o - fam[f].phase) / step
				c.Check(near(x*step, math.Round(x)*step, 2e-5), "%s, layer %d: strokes at %.6g and %.6g are not a multiple of %.6g from each other", what, i, o, fam[f].phase, step)
				ta, tb := a.Dot(fam[f].u), b.Dot(fam[f].u)
				st[i][f] = append(st[i][f], stroke{o, math.Min(ta, tb), math.Max(ta, tb)})
			}
		}
	}
	for _, i := range which {
		segs := region(i)
		if os.Getenv("VRUN_DUMP") != "" {
			fmt.Fprintln(os.Stderr, what, "layer", i, "region", segs, "\nstrokes", layers[i].Fill)
		}
		if len(segs) == 0 {
			continue
		}
		for f, fl := range fam {
			if !fl.known {
				// no line of this direction was seen at all: nothing may be as wide as the step
				if w := widest(c.R, segs); w > step*0.55+0.01 {
					c.Fail("%s, layer %d: no strokes (of direction %d of %d) though a circle of radius %.6g fits inside, lines are %.6g apart", what, i, f, nd, w, step)
				}
				continue
			}
			lo, hi := math.Inf(1), math.Inf(-1)
			for _, s := range segs {
				d := s.A.Dot(fl.n)
				lo, hi = math.Min(lo, d), math.Max(hi, d)
			}
			by := map[int][]ival{}
			for _, s := range st[i][f] {
				k := int(math.Round((s.o - fl.phase) / step))
				by[k] = append(by[k], ival{s.a, s.b})
			}
			k0, k1 := int(math.Floor((lo-fl.phase)/step)), int(math.Ceil((hi-fl.phase)/step))
			for k := range by {
				c.Check(k >= k0 && k <= k1, "%s, layer %d: stroke at %.6g, the inside is within %.6g..%.6g", what, i, fl.phase+step*float64(k), lo, hi)
			}
			for k := k0; k <= k1; k++ {
				o := fl.phase + step*float64(k)
				const del = 2e-5
				A, B, M := lineInside(segs, fl.n, fl.u, o-del), lineInside(segs, fl.n, fl.u, o+del), lineInside(segs, fl.n, fl.u, o)
				if len(A) == 0 && len(B) == 0 && len(by[k]) == 0 {
					continue
				}
				c.Event("fill lines compared", 1)
				for _, s := range segs {
					if math.Abs(s.A.Dot(fl.n)-o) < 1e-7 {
						c.Event("lines through a vertex of a contour", 1)
						break
					}
				}
				var ts []float64
				for _, l := range [][]ival{A, B, M, by[k]} {
					for _, x := range l {
						ts = append(ts, x.a, x.b)
					}
				}
				sort.Float64s(ts)
				sum := 0.0
				for _, x := range by[k] {
					sum += x.b - x.a
				}
				most := 0.0
				at := func(t float64) geo.V3 {
					p := fl.n.Mul(o).Add(fl.u.Mul(t))
					p[2] = segs[0].A[2]
					return p
				}
				for q := 1; q < len(ts); q++ {
					if ts[q]-ts[q-1] < 1e-3 {
						most += ts[q] - ts[q-1]
						continue
					}
					t := (ts[q] + ts[q-1]) / 2
					inA, inB, got := covered(t, A, 0), covered(t, B, 0), covered(t, by[k], 0)
					if inA || inB || geo.NearestBoundary(at(t), segs) < 4e-5 {
						most += ts[q] - ts[q-1]
					}
					p := at(t)
					if inA && inB && covered(t, M, 0) {
						c.Check(got, "%s, layer %d: the line at %.6g (direction %.4g degrees) is not drawn from %v on %.6g, around X %.6g Y %.6g; it is inside", what, i, o, dirAngle(fl.u), ts[q-1], ts[q]-ts[q-1], p[0], p[1])
					}
					if !inA && !inB {
						c.Check(!got || geo.NearestBoundary(p, segs) < 4e-5, "%s, layer %d: a stroke of the line at %.6g (direction %.4g degrees) is outside around X %.6g Y %.6g", what, i, o, dirAngle(fl.u), p[0], p[1])
					}
				}
				c.Check(sum < most+2e-3*float64(len(ts)+1), "%s, layer %d: strokes of the line at %.6g have length %.6g, the inside has %.6g: something is drawn twice", what, i, o, sum, most)
			}
		}
	}
}

// widest finds (by sampling) the radius of a big circle inside.
func widest(r *rand.Rand, segs []geo.Seg) float64 {
	lo, hi := geo.V3{1e18, 1e18, 0}, geo.V3{-1e18, -1e18, 0}
	for _, s := range segs {
		for k := 0; k < 2; k++ {
			lo[k], hi[k] = math.Min(lo[k], s.A[k]), math.Max(hi[k], s.A[k])
		}
	}
	best := 0.0
	for n := 0; n < 40; n++ {
		p := geo.V3{lo[0] + (hi[0]-lo[0])*r.Float64(), lo[1] + (hi[1]-lo[1])*r.Float64(), segs[0].A[2]}
		if geo.InsideEvenOdd(p, segs, geo.V3{1, 0, 0}, geo.V3{0, 1, 0}) {
			best = math.Max(best, geo.NearestBoundary(p, segs))
		}
	}
	return best
}

func c07(c *run.Case) {
	r := c.R
	var m *geo.IMesh
	grid := c.I%3 == 0
	if grid {
		m = gridded(r)
	} else {
		m = anySolid(r, 20)
		k := r.Intn(6)
		if strings.HasPrefix(m.Name, "large") { // upright, often along the fill lines
			k = 2
		}
		switch k {
		case 0, 1:
			m = m.Rotate(geo.RandomRot(r))
		case 2:
			m = m.Rotate(geo.AxisAngle(geo.V3{0, 0, 1}, run.Pick(r, 90, 90, 45, 30, 360*r.Float64())))
		}
	}
	lo, hi := m.Bounds()
	off := geo.V3{-(lo[0] + hi[0]) / 2, -(lo[1] + hi[1]) / 2, -lo[2]}
	if grid {
		off = geo.V3{math.Round(off[0]), math.Round(off[1]), -lo[2]}
	}
	switch r.Intn(5) {
	case 0:
		k := run.Pick(r, 10, 30, 100, 250, 2000)
		off = off.Add(geo.V3{float64(r.Intn(2*k) - k), float64(r.Intn(2*k) - k), float64(r.Intn(3) * 5)})
		c.Event("models far from the origin", 1)
	case 1:
		off = off.Add(geo.V3{20*r.Float64() - 10, 20*r.Float64() - 10, 3 * r.Float64()})
	}
	m = m.Translate(off)
	H := hi[2] - lo[2]
	s := stdSettings(r, H/(1+8*r.Float64()))
	lw := run.Pick(r, 0.3, 0.4, 0.5, 0.8, 1.2)
	if grid {
		lw = run.Pick(r, 0.25, 0.5, 1.0)
	}
	s.GcodeSettings.LineWidth = lw
	s.FillingType = run.Pick(r, "Lines", "Squares", "Triangles")
	s.FillDensity = run.Pick(r, 0, 10, 20, 25, 33, 50, 100, 1+r.Intn(100))
	s.TopLayers, s.BottomLayers = r.Intn(4), r.Intn(4)
	if len(m.F) < 300 && r.Intn(20) == 0 {
		s.LayerHeight = H / (10 + 20*r.Float64())
		if r.Intn(4) == 0 {
			s.LayerHeight = H / (100 + 60*r.Float64())
		}
		s.GcodeSettings.LayerHeight = s.LayerHeight
		s.TopLayers, s.BottomLayers = r.Intn(16), r.Intn(16)
		c.Event("many layers", 1)
	}
	if c.I%5 == 4 {
		c07vip(c, s)
		return
	}
	byPlanes := r.Intn(2) == 0
	s.WallThickness = lw * run.Pick(r, 0.5, 1, 2, 3, 4)
	var g gcode.Gcode
	if byPlanes {
		s.PlanesFile = planesFile(c, fmt.Sprintf("X0 Y0 Z%d Tfalse R0", 1000+int(H))) // far above the model
		if s.WallThickness >= 2*lw-1e-9 {
			s.SkirtLineCount = r.Intn(3)
		}
		g = vip.Slice(toMesh(m), s)
	} else {
		g = slicers.SliceByVectorToGcode(toMesh(m), AxisZ, s)
	}
	countLarge(c, m)
	c.Distinct("%v %v %v %v %v %v %v", m.V, lw, s.FillingType, s.FillDensity, s.TopLayers, s.BottomLayers, byPlanes)
	c.Sample("%s moved by %v, line width %g, %s, density %d, %d top, %d bottom, walls %g, by planes %v", m.Name, off, lw, s.FillingType, s.FillDensity, s.TopLayers, s.BottomLayers, s.WallThickness, byPlanes)
	var layers []Layer
	for _, l := range layersOf(&g) {
		layers = append(layers, l...)
	}
	c.Check(len(layers) > 0, "no layers")
	m0, m1 := m.Bounds()
	judgeFill(c, "", layers, s, m0, m1, byPlanes, s.SkirtLineCount > 0)
}

// leaningLegs are two legs that lean to each other so much that the bed is inclined,
// if layers are not thicker than the height that is returned.
func leaningLegs(r *rand.Rand) (*geo.IMesh, float64) {
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	h, rad, b := u(8, 15), u(1.5, 4), u(0, 2*math.Pi)
	a := math.Tan(u(50, 62) * math.Pi / 180)
	d := h*a + rad*1.2 + u(1, 4)
	n := 4 + r.Intn(9)
	levels := []float64{0, h}
	if r.Intn(3) > 0 { // high legs: the part that leans is far from the origin after the bed is inclined
		h, levels = h/2, []float64{0, h/2 + u(10, 40)}
		levels = append(levels, levels[1]+h)
		d = h*a + rad*1.2 + u(1, 4)
	}
	top := len(levels) - 1
	var ms []*geo.IMesh
	for _, s := range []float64{-1, 1} {
		dir := geo.P2{s * math.Cos(b), s * math.Sin(b)}
		ms = append(ms, geo.Loft("leg", geo.RegularPoly(n, rad, r.Float64()), levels, func(l int, p geo.P2) geo.P2 {
			k := -d
			if l == top {
				k += h * a
			}
			return geo.P2{p[0] + k*dir[0], p[1] + k*dir[1]}
		}))
	}
	m := geo.Union(ms...)
	m.Name = "leaning legs"
	return m, 0.4 * rad / a
}

// flare is a body of rotation that becomes so wide that the bed is inclined.
func flare(r *rand.Rand) *geo.IMesh {
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	z, q := u(1, 5), u(3, 6)
	h := u(4, 12)
	return geo.Revolve("flare", []geo.P2{{q, 0}, {q, z}, {q + h*math.Tan(u(50, 65)*math.Pi/180), z + h}}, 16+r.Intn(20))
}

// c07vip: parts of models with overhangs, printed in changed poses of the bed.
func c07vip(c *run.Case, s slicers.Settings) {
	r := c.R
	m, _ := leaning(r)
	thin := math.Inf(1)
	switch r.Intn(10) {
	case 0, 1:
		m, thin = leaningLegs(r)
	case 2:
		m = flare(r)
	}
	lo, hi := m.Bounds()
	m = m.Translate(geo.V3{-(lo[0] + hi[0]) / 2, -(lo[1] + hi[1]) / 2, -lo[2]})
	if r.Intn(3) == 0 {
		m = m.Translate(geo.V3{40*r.Float64() - 20, 40*r.Float64() - 20, 0})
	}
	if len(m.F) > 2500 {
		c.Skip("more than 2500 facets")
	}
	s.LayerHeight = math.Min((hi[2]-lo[2])/(4+12*r.Float64()), thin)
	s.GcodeSettings.LayerHeight = s.LayerHeight
	lw := s.GcodeSettings.LineWidth
	s.WallThickness = lw * run.Pick(r, 0.5, 1, 2, 3)
	c.Distinct("%v %v %v %v %v %v %v", m.V, lw, s.FillingType, s.FillDensity, s.TopLayers, s.BottomLayers, s.LayerHeight)
	g := vip.Slice(toMesh(m), s)
	ls, _ := posedLayers(c, &g, m.Name)
	k := 0
	for i, part := range layersOf(&g) {
		if len(part) == 0 {
			continue
		}
		pose := ls[k].pose
		k += len(part)
		if n := vv3(part[0].Norm); n.Dist(geo.V3{0, 0, 1}) > 1e-9 { // layers of SliceRotation are not horizontal
			part = append([]Layer(nil), part...)
			for j := range part {
				part[j] = mapLayer(part[j], func(p geo.V3) geo.V3 { return lean(p, pose.t2) })
			}
			c.Event("layers that are not horizontal", len(part))
		}
		p0, p1 := geo.V3{1e18, 1e18, 1e18}, geo.V3{-1e18, -1e18, -1e18}
		for _, l := range part {
			for _, e := range pathSegs(l.Paths) {
				for j := range p0 {
					p0[j], p1[j] = math.Min(p0[j], e.A[j]), math.Max(p1[j], e.A[j])
				}
			}
		}
		judgeFill(c, fmt.Sprintf("vip of %s, part %d (bed turned by %.4g and inclined by %v), ", m.Name, i, pose.t1, pose.t2), part, s, p0, p1, true, false)
		if pose != (poseOf{}) {
			c.Event("parts in changed poses", 1)
			if m.Name == "leaning legs" {
				c.Event("leaning legs in changed poses", 1)
			}
		}
	}
}

func mapLayer(l Layer, f func(geo.V3) geo.V3) Layer {
	m := func(ps []Path) (out []Path) {
		for _, p := range ps {
			var q Path
			for _, x := range p.Points {
				q.Points = append(q.Points, pt(f(v3(x))))
			}
			out = append(out, q)
		}
		return
	}
	return Layer{Norm: vec(f(vv3(l.Norm))), Paths: m(l.Paths), MiddlePs: m(l.MiddlePs), InnerPs: m(l.InnerPs), Fill: m(l.Fill)}
}

// judgeFill compares the infill of all the layers of a part with the settings.
func judgeFill(c *run.Case, what string, layers []Layer, s slicers.Settings, m0, m1 geo.V3, byPlanes, skirt bool) {
	lw := s.GcodeSettings.LineWidth
	region := func(i int) []geo.Seg {
		if len(layers[i].InnerPs) > 0 {
			return pathSegs(layers[i].InnerPs)
		}
		return pathSegs(layers[i].Paths)
	}
	broken := map[int]bool{}
	for i, l := range layers {
		if len(l.InnerPs) > 0 {
			c.Event("layers with inner walls", 1)
			c.Check(byPlanes, "walls are added in 3 axes mode")
		} else {
			c.Event("layers filled to the outer contour", 1)
			broken[i] = i == 0 && skirt // the skirt is among the outer contours
		}
		for _, p := range append(append([]Path(nil), l.Paths...), l.InnerPs...) {
			if k := len(p.Points); k > 0 && v3(p.Points[0]).Dist(v3(p.Points[k-1])) > 3e-6 {
				broken[i] = true // C04, C15
			}
		}
		for _, s := range region(i) {
			for k := 0; k < 2; k++ {
				if s.A[k] < m0[k]-1e-3 || s.A[k] > m1[k]+1e-3 {
					broken[i] = true // an inner contour of a part that is too thin for it, see C15
				}
			}
		}
		z := math.NaN()
		for _, p := range l.Paths {
			for _, q := range p.Points {
				z = q.Z
			}
		}
		for _, p := range l.Fill {
			for _, q := range p.Points {
				c.Check(near(q.Z, z, 1e-6), "%slayer %d is at height %v, a fill stroke at %v", what, i, z, q.Z)
			}
		}
	}
	var full, sparse []int
	for i := range layers {
		if broken[i] {
			c.Event("layers with bad inner contours or with a skirt instead of walls, not judged", 1)
			continue
		}
		if i < s.BottomLayers || i >= len(layers)-s.TopLayers {
			full = append(full, i)
		} else {
			sparse = append(sparse, i)
		}
	}
	c.Event("full layers", len(full))
	checkFill(c, what+"full layers", layers, region, full, 1, lw)
	if s.FillDensity == 0 {
		for _, i := range sparse {
			c.Check(len(layers[i].Fill) == 0, "%sdensity 0, layer %d has %d strokes", what, i, len(layers[i].Fill))
			c.Event("layers without sparse fill", 1)
		}
		return
	}
	nd := map[string]int{"Lines": 1, "Squares": 2, "Triangles": 3}[s.FillingType]
	c.Event("sparse layers", len(sparse))
	c.Event(s.FillingType, len(sparse))
	checkFill(c, what+"sparse layers, "+s.FillingType, layers, region, sparse, nd, lw*100*float64(nd)/float64(s.FillDensity))
}
