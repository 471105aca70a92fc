package chk

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"strings"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
)

func init() {
	run.Register(&run.Property{ID: "C14", Level: "exploration", Quick: 2500, Full: 60000, Min: 1500,
		Must: []string{"parts", "tilted parts", "parts after a tilted part", "layers located", "areas compared", "sections compared", "heights compared", "empty parts", "first layers with a skirt", "parts with walls", "strokes", "volumes compared", "convex solids", "other solids", "empty lines in the planes file", "planes that cross in the solid"},
		Rule: "a case is a solid, a list of up to four planes (some tilted, some missing the solid), a rotation centre and settings; every layer is mapped back from the bed pose that the g-code has at its marker; distinct by solid, planes, centre and settings",
		Run:  c14})
}

type bedPlane struct {
	p      geo.V3
	tilted bool
	rotz   float64
}

// turnZ turns clockwise seen from above, as the bed does.
func turnZ(p geo.V3, deg float64) geo.V3 {
	s, c := math.Sincos(deg * math.Pi / 180)
	return geo.V3{p[0]*c + p[1]*s, -p[0]*s + p[1]*c, p[2]}
}

// lean is the inclination of the bed: what points to +Y and up turns up.
func lean(p geo.V3, deg float64) geo.V3 {
	s, c := math.Sincos(deg * math.Pi / 180)
	return geo.V3{p[0], p[1]*c - p[2]*s, p[1]*s + p[2]*c}
}

// pose maps the model to the bed turned by t1 and inclined by t2.
func pose(p, centre geo.V3, t1, t2 float64) geo.V3 {
	return lean(turnZ(p.Sub(centre), t1), t2).Add(centre)
}

// normal of the plane that the pose turns to horizontal
func (b bedPlane) n() geo.V3 {
	if b.tilted {
		return turnZ(lean(geo.V3{0, 0, 1}, -60), -b.rotz)
	}
	return geo.V3{0, 0, 1}
}

func (b bedPlane) inclination() float64 {
	if b.tilted {
		return 60
	}
	return 0
}

func (b bedPlane) String() string {
	return fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%.3f", b.p[0], b.p[1], b.p[2], b.tilted, b.rotz)
}

func convex(m *geo.IMesh) bool {
	_, hi := m.Bounds()
	lo, _ := m.Bounds()
	eps := 1e-7 * hi.Sub(lo).Len()
	for _, t := range m.Tris() {
		n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
		if n.Len() == 0 {
			continue
		}
		n = n.Unit()
		for _, v := range m.V {
			if v.Sub(t[0]).Dot(n) > eps {
				return false
			}
		}
	}
	return true
}

type halfSpace struct {
	n geo.V3
	d float64 // inside: p.n >= d
}

// clipLoops cuts loops in a plane by half-spaces; areas stay right, loops can get edges that are walked both ways.
func clipLoops(ls [][]geo.V3, hs []halfSpace) []geo.Seg {
	var out []geo.Seg
	for _, l := range ls {
		for _, h := range hs {
			var q []geo.V3
			for i := range l {
				a, b := l[i], l[(i+1)%len(l)]
				ha, hb := a.Dot(h.n)-h.d, b.Dot(h.n)-h.d
				if ha >= 0 {
					q = append(q, a)
				}
				if (ha >= 0) != (hb >= 0) {
					q = append(q, a.Lerp(b, ha/(ha-hb)))
				}
			}
			l = q
		}
		for i := range l {
			if a, b := l[i], l[(i+1)%len(l)]; a != b {
				out = append(out, geo.Seg{A: a, B: b})
			}
		}
	}
	return out
}

func randPlanes(r *rand.Rand, m *geo.IMesh, n int) []bedPlane {
	lo, hi := m.Bounds()
	var out []bedPlane
	for i := 0; i < n; i++ {
		b := bedPlane{tilted: r.Intn(2) == 0, rotz: run.Pick(r, 0, 90, -90, 180, 360*r.Float64()-180, 720*r.Float64()-360)}
		for k := range b.p {
			b.p[k] = lo[k] + (hi[k]-lo[k])*(0.15+0.7*r.Float64())
			if r.Intn(12) == 0 {
				b.p[k] = hi[k] + 1 + 30*r.Float64()
			}
		}
		if r.Intn(2) == 0 { // from the bottom to the top, as the analyzer writes them
			b.p[2] = lo[2] + (hi[2]-lo[2])*(float64(i)+0.2+0.6*r.Float64())/float64(n)
		}
		for k := range b.p {
			b.p[k] = float64(float32(math.Round(b.p[k]*1000) / 1000))
		}
		b.rotz = float64(float32(math.Round(b.rotz*1000) / 1000))
		out = append(out, b)
	}
	return out
}

func c14(c *run.Case) {
	r := c.R
	var m *geo.IMesh
	if r.Intn(2) == 0 { // convex ones are compared completely
		for m == nil || !convex(m) {
			m = anySolid(r, 100)
		}
	} else {
		m = anySolid(r, 100)
	}
	switch r.Intn(3) {
	case 0:
		m = m.Rotate(geo.RandomRot(r))
	case 1:
		m = m.Rotate(geo.AxisAngle(geo.V3{0, 0, 1}, 360*r.Float64()))
	}
	lo, hi := m.Bounds()
	m = m.Translate(geo.V3{-(lo[0] + hi[0]) / 2, -(lo[1] + hi[1]) / 2, -lo[2]}).Translate(geo.V3{run.Pick(r, 0, 30*r.Float64()), 10 * r.Float64(), run.Pick(r, 0, 0, r.Float64())}).Shuffle(r)
	lo, hi = m.Bounds()
	isConvex := convex(m)
	if isConvex {
		c.Event("convex solids", 1)
	} else {
		c.Event("other solids", 1)
	}
	n := 1 + r.Intn(3)
	if r.Intn(8) == 0 {
		n = 4 + r.Intn(5)
	}
	planes := randPlanes(r, m, n)
	anyTilted := false
	for _, b := range planes {
		anyTilted = anyTilted || b.tilted
	}
	for i := range planes { // so that it is known to which part a layer belongs
		same := func() bool {
			for _, b := range planes[:i] {
				if b.rotz == planes[i].rotz {
					return true
				}
			}
			return planes[i].rotz == 0
		}
		for anyTilted && same() {
			planes[i].rotz = float64(float32(r.Intn(720000)-360000) / 1000)
		}
	}
	size := hi.Sub(lo).Len()
	s := stdSettings(r, size/(4+12*r.Float64()))
	lw := run.Pick(r, 0.3, 0.4, 0.5, 0.8)
	s.GcodeSettings.LineWidth = lw
	s.FillingType = run.Pick(r, "Lines", "Squares", "Triangles")
	s.FillDensity = run.Pick(r, 0, 10, 20, 50)
	s.TopLayers, s.BottomLayers = r.Intn(3), r.Intn(3)
	s.WallThickness = lw * run.Pick(r, 1, 1, 2, 3.)
	centre := run.Pick(r, geo.V3{}, geo.V3{0, 0, 5}, geo.V3{20 * r.Float64(), -20 * r.Float64(), 10 * r.Float64()})
	s.RotationCenter = pt(centre)
	var lines []string
	for _, b := range planes {
		if r.Intn(6) == 0 {
			lines = append(lines, run.Pick(r, "", "  "))
			c.Event("empty lines in the planes file", 1)
		}
		lines = append(lines, b.String())
	}
	s.PlanesFile = planesFile(c, lines...)
	what := fmt.Sprintf("%s with planes %q around %v", m.Name, strings.Join(lines, "|"), centre)
	countLarge(c, m)
	c.Distinct("%v %v %v %v", m.V, lines, centre, lw)
	c.Sample("%s, layers of %.3g", what, s.LayerHeight)
	if os.Getenv("VRUN_DUMP") != "" {
		debugParts(m, planes)
	}
	before := toMesh(m)
	mesh := copyMesh(before)
	g := vip.Slice(mesh, s)
	c.Check(sameMesh(mesh, before), "%s: the mesh is modified", what)

	// parts of the solid
	parts := make([][]halfSpace, n+1)
	for i := range parts {
		if i > 0 {
			u := planes[i-1].n()
			parts[i] = append(parts[i], halfSpace{u, planes[i-1].p.Dot(u)})
		}
		for j := i; j < n; j++ {
			u := planes[j].n()
			parts[i] = append(parts[i], halfSpace{u.Mul(-1), -planes[j].p.Dot(u)})
		}
	}
	poses := make([][2]float64, n+1)
	for i := 1; i <= n; i++ {
		poses[i] = [2]float64{planes[i-1].rotz, planes[i-1].inclination()}
	}
	c.Event("parts", n+1)
	crossing := false
	for i := range planes { // does the section of one cut go through another plane
		for j := i + 1; j < n; j++ {
			a, b := planes[i], planes[j]
			if u, w := a.n(), b.n(); u.Cross(w).Len() > 1e-6 {
				sec := geo.Section(m.Tris(), u, a.p.Dot(u)+1e-9)
				up, down := false, false
				for _, e := range sec {
					up = up || e.A.Sub(b.p).Dot(w) > 0
					down = down || e.A.Sub(b.p).Dot(w) < 0
				}
				if up && down {
					crossing = true
				}
			}
		}
	}
	if crossing {
		c.Event("planes that cross in the solid", 1)
	}
	exact := isConvex || !crossing

	// the solid in the pose of every part
	posed := make([][][3]geo.V3, n+1)
	var cut [][]halfSpace
	var span [][2]float64
	for i := range parts {
		for _, t := range m.Tris() {
			for k := range t {
				t[k] = pose(t[k], centre, poses[i][0], poses[i][1])
			}
			posed[i] = append(posed[i], t)
		}
		var hs []halfSpace
		for _, h := range parts[i] {
			u := lean(turnZ(h.n, poses[i][0]), poses[i][1])
			p := pose(h.n.Mul(h.d), centre, poses[i][0], poses[i][1])
			hs = append(hs, halfSpace{u, p.Dot(u)})
		}
		cut = append(cut, hs)
		// extent: of the clipped surface with the caps, their corners are on clipped triangles or on edges of planes in the solid
		z0, z1 := math.Inf(1), math.Inf(-1)
		ts := posed[i]
		for _, h := range hs {
			ts = geo.Clip(ts, h.n, h.d)
		}
		for _, t := range ts {
			for _, q := range t {
				z0, z1 = math.Min(z0, q[2]), math.Max(z1, q[2])
			}
		}
		for a := 0; a < len(hs); a++ {
			for b := a + 1; b < len(hs); b++ {
				for d := b + 1; d < len(hs); d++ {
					q, det := geo.Solve3([3]geo.V3{hs[a].n, hs[b].n, hs[d].n}, [3]float64{hs[a].d, hs[b].d, hs[d].d})
					if math.Abs(det) < 1e-9 || math.Abs(windingNumber(posed[i], q)) < 0.5 {
						continue
					}
					in := true
					for e, h := range hs {
						if e != a && e != b && e != d && q.Dot(h.n) < h.d {
							in = false
						}
					}
					if in {
						z0, z1 = math.Min(z0, q[2]), math.Max(z1, q[2])
					}
				}
			}
		}
		span = append(span, [2]float64{z0, z1})
	}
	section := func(i int, z float64) []geo.Seg {
		return clipLoops(loops(geo.Section(posed[i], geo.V3{0, 0, 1}, z)), cut[i])
	}
	area := func(i int, z float64) float64 {
		return geo.ClippedArea(geo.Section(posed[i], geo.V3{0, 0, 1}, z), geo.V3{0, 0, -1}, func(t [][3]geo.V3) [][3]geo.V3 {
			for _, h := range cut[i] {
				t = geo.Clip(t, h.n, h.d)
			}
			return t
		})
	}

	// layers with the pose of the bed at their markers
	evs := checkMarkers(c, gcodeText(&g), g.LayerCount(), what)
	type placedLayer struct {
		l  Layer
		t  [2]float64
		z  float64
		id int
	}
	var all []placedLayer
	for _, ls := range layersOf(&g) {
		for _, l := range ls {
			all = append(all, placedLayer{l: l, z: math.NaN(), id: len(all)})
		}
	}
	k := 0
	var bed [2]float64
	for _, e := range evs {
		switch e.kind {
		case evBed:
			bed = [2]float64{e.phys[1], e.phys[2]}
		case evG62:
			c.Fail("%s: G62 in a program by planes", what)
		case evLayer:
			all[k].t = bed
			k++
		}
	}
	byPart := make([][]placedLayer, n+1)
	i := 0
	for _, l := range all {
		for _, p := range l.l.Paths {
			for _, q := range p.Points {
				if math.IsNaN(l.z) {
					l.z = q.Z
				}
				c.Check(near(q.Z, l.z, 1e-5), "%s: a layer has points at heights %v and %v", what, l.z, q.Z)
			}
		}
		if math.IsNaN(l.z) {
			c.Event("layers without contours", 1) // the heights next to it tell if something is missing
			for i <= n && (math.Abs(l.t[0]-poses[i][0]) > 2e-3 || math.Abs(l.t[1]-poses[i][1]) > 2e-3) {
				i++
			}
			c.Check(i <= n, "%s: layer %d is printed with the bed turned by %v and inclined by %v, poses of parts are %v", what, l.id, l.t[0], l.t[1], poses)
			byPart[i] = append(byPart[i], l)
			continue
		}
		fits := func(i int) bool {
			if math.Abs(l.t[0]-poses[i][0]) > 2e-3 || math.Abs(l.t[1]-poses[i][1]) > 2e-3 {
				return false
			}
			if k := len(byPart[i]); k > 0 && byPart[i][k-1].z >= l.z-1e-9 {
				return false // false for layers without contours
			}
			return crossing || l.z > span[i][0]-1e-4 && l.z < span[i][1]+1e-4
		}
		j := i
		for j <= n && !fits(j) {
			j++
		}
		c.Check(j <= n, "%s: layer %d at height %v is printed with the bed turned by %v and inclined by %v; the part printed before was %d, poses of parts are %v, their heights in these poses %v", what, l.id, l.z, l.t[0], l.t[1], i, poses, span)
		i = j
		byPart[i] = append(byPart[i], l)
		c.Event("layers located", 1)
	}

	t := s.LayerHeight
	total, expected, tol := 0.0, m.Volume(), 0.0
	for i, ls := range byPart {
		pw := fmt.Sprintf("%s, part %d of %d (turned by %v, inclined by %v)", what, i, n+1, poses[i][0], poses[i][1])
		H := span[i][1] - span[i][0]
		if !(H > 0) {
			c.Event("empty parts", 1)
			if !crossing {
				c.Check(len(ls) == 0, "%s: nothing of the model is there, %d layers are printed", pw, len(ls))
				continue
			}
		}
		if poses[i][1] != 0 {
			c.Event("tilted parts", 1)
		} else if i > 0 && poses[i-1][1] != 0 && len(ls) > 0 {
			c.Event("parts after a tilted part", 1)
		}
		// a layer without contours is between its neighbours
		for a := range ls {
			if !math.IsNaN(ls[a].z) {
				continue
			}
			b := a
			for b < len(ls) && math.IsNaN(ls[b].z) {
				b++
			}
			if a > 0 && b < len(ls) {
				ls[a].z = ls[a-1].z + (ls[b].z-ls[a-1].z)/float64(b-a+1)
			} else if b+1 < len(ls) && !math.IsNaN(ls[b+1].z) {
				ls[a].z = ls[b].z - (ls[b+1].z-ls[b].z)*float64(b-a)
			} else if a > 1 {
				ls[a].z = 2*ls[a-1].z - ls[a-2].z
			}
		}
		filled := ls
		ls = nil
		for _, l := range filled {
			if !math.IsNaN(l.z) {
				ls = append(ls, l)
			}
		}
		// every layer is a section of the part
		biggest := 0.0
		for _, l := range ls {
			got := -geo.SignedArea(pathSegs(l.l.Paths), geo.V3{0, 0, 1})
			ex := section(i, l.z)
			a0, a1, a2 := area(i, l.z-2e-5), area(i, l.z), area(i, l.z+2e-5)
			min3, max3 := math.Min(a0, math.Min(a1, a2)), math.Max(a0, math.Max(a1, a2))
			e := 1e-3 + 1e-3*geo.TotalLen(ex)
			c.Check(got > min3-e && got < max3+e, "%s: the layer at height %v (number %d) encloses %.6g, the section of the part there has %.6g", pw, l.z, l.id, got, a1)
			c.Event("areas compared", 1)
			biggest = math.Max(biggest, max3)
			if exact && H > 1e-3 {
				total += H / math.Ceil(H/t-1e-9) * got
			}
			if s.WallThickness > 1.9*lw {
				if len(l.l.InnerPs) == 0 && len(ex) > 0 {
					w := widest(r, ex)
					c.Check(w < 2*s.WallThickness, "%s: the layer at height %v has no inner walls, the section has a radius of %v", pw, l.z, w)
				} else {
					c.Event("parts with walls", 1)
				}
			} else {
				c.Check(len(l.l.InnerPs)+len(l.l.MiddlePs) == 0, "%s: the layer at height %v has inner walls for walls of %v and lines of %v", pw, l.z, s.WallThickness, lw)
			}
			if isConvex && max3-min3 < e && a1 > 0.01 {
				compareSection(c, fmt.Sprintf("%s, layer %d at height %v", pw, l.id, l.z), l.l.Paths, ex, geo.V3{0, 0, 1}, 1e-3)
			}
		}
		// heights: no slab of the part is left out
		if H > 1e-3 && (!crossing || len(ls) > 1) { // otherwise the heights are not known
			sp, first := H/math.Ceil(H/t-1e-6), span[i][0]
			first += sp / 2
			if len(ls) > 1 {
				sp = math.Inf(1)
				for k := 1; k < len(ls); k++ {
					sp = math.Min(sp, ls[k].z-ls[k-1].z)
				}
				c.Check(!crossing || sp < t*(1+1e-6)+1e-5, "%s: layers of %v are printed every %v", pw, t, sp)
			}
			if crossing && len(ls) > 0 {
				first = ls[0].z
				for first-sp > span[i][0] {
					first -= sp
				}
			}
			k := 0
			for z := first; z < span[i][1]; z += sp {
				for k < len(ls) && ls[k].z < z-0.3*sp {
					k++
				}
				c.Event("heights compared", 1)
				if k < len(ls) && near(ls[k].z, z, 1e-4+1e-3*sp) {
					continue
				}
				if !crossing && k < len(ls) && ls[k].z < z+0.3*sp && math.Abs(H/t-math.Round(H/t)) > 1e-5 {
					c.Fail("%s: a layer is printed at height %v, it has to be at %v (the part goes from %v to %v, layers of %v)", pw, ls[k].z, z, span[i][0], span[i][1], t)
				}
				a0, a1, a2 := area(i, z-1e-4), area(i, z), area(i, z+1e-4)
				c.Check(math.Min(a0, math.Min(a1, a2)) < 1e-3+2e-3*geo.TotalLen(section(i, z)), "%s: nothing is printed at height %v, the part goes from %v to %v with layers of %v and has a section of %.6g there; layers at %v", pw, z, span[i][0], span[i][1], t, a1, heights(ls, func(l placedLayer) float64 { return l.z }))
			}
			if N := int(math.Ceil(H/t - 1e-6)); !crossing {
				c.Check(len(ls) <= N+1, "%s: %d layers of %v for a height of %v", pw, len(ls), t, H)
			}
		}
		tol += t * biggest
		if exact {
			m0, m1 := geo.V3{math.Inf(1), math.Inf(1), span[i][0]}, geo.V3{math.Inf(-1), math.Inf(-1), span[i][1]}
			var layers []Layer
			for _, l := range filled {
				layers = append(layers, l.l)
				for _, p := range pathSegs(l.l.Paths) {
					for k := 0; k < 2; k++ {
						m0[k], m1[k] = math.Min(m0[k], p.A[k]), math.Max(m1[k], p.A[k])
					}
				}
			}
			judgeFill(c, pw+", ", layers, s, m0, m1, true, false)
		}
	}
	if exact {
		c.Check(near(total, expected, tol+0.02*expected), "%s: printed areas times spacing are %.6g, the volume is %.6g (layers of %.3g)", what, total, expected, t)
		c.Event("volumes compared", 1)
	}

	// with a skirt
	s.SkirtLineCount = 1 + r.Intn(3)
	g2 := vip.Slice(copyMesh(before), s)
	var other []Layer
	for _, ls := range layersOf(&g2) {
		other = append(other, ls...)
	}
	c.Check(len(other) == len(all), "%s: %d layers with a skirt, %d without", what, len(other), len(all))
	for k := range all {
		a, b := dumpLayers([]Layer{all[k].l}), dumpLayers(other[k:k+1])
		if k == 0 && len(byPart[0]) > 0 {
			cnt := 0
			for _, p := range all[k].l.Paths {
				if len(p.Points) > 1 {
					cnt++
				}
			}
			c.Check(len(other[k].Paths) >= cnt, "%s: contours are lost with a skirt", what)
			if byPart[0][0].z < 1e9 && area(0, byPart[0][0].z) > 0.1 {
				c.Check(len(other[k].Paths) > cnt, "%s: the first layer has no skirt", what)
				c.Event("first layers with a skirt", 1)
			}
			other[k].Paths = all[k].l.Paths
			b = dumpLayers(other[k : k+1])
		}
		c.Check(a == b, "%s: layer %d of %d is not the same with a skirt: %s", what, k, len(all), firstDiff(b, a))
	}
}

func heights[T any](ls []T, z func(T) float64) (out []float64) {
	for _, l := range ls {
		out = append(out, z(l))
	}
	return
}

var _ = debugParts

func debugParts(m *geo.IMesh, planes []bedPlane) {
	mesh := toMesh(m)
	for i := len(planes) - 1; i >= 0; i-- {
		up, down, _ := helpers.CutMesh(mesh, Plane{P: pt(planes[i].p), N: vec(planes[i].n())})
		z0, z1 := math.Inf(1), math.Inf(-1)
		for _, t := range tris(down) {
			for _, q := range t {
				z0, z1 = math.Min(z0, q[2]), math.Max(z1, q[2])
			}
		}
		fmt.Fprintln(os.Stderr, "CUT", planes[i], "up", len(up.Triangles), geo.TrisVolume(tris(up)), geo.TrisWatertight(tris(up)), "down", geo.TrisVolume(tris(down)), geo.TrisWatertight(tris(down)), z0, z1)
		for _, t := range tris(up) {
			for _, q := range t {
				if k := q.Sub(planes[i].p).Dot(planes[i].n()); k < -1e-6 {
					fmt.Fprintln(os.Stderr, "CUT below by", k, t, "area", geo.Area([][3]geo.V3{t}))
				}
			}
		}
		for _, t := range tris(down) {
			for _, q := range t {
				if k := q.Sub(planes[i].p).Dot(planes[i].n()); k > 1e-6 {
					fmt.Fprintln(os.Stderr, "CUT above by", k, t, "area", geo.Area([][3]geo.V3{t}))
				}
			}
		}
		mesh = down
	}
}
