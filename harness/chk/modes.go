package chk

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() {
	run.Register(&run.Property{ID: "C22", Level: "exploration", Quick: 2500, Full: 60000, Min: 1500, CPU: 60,
		Must: []string{"3axes", "5axes", "5axes_by_profile", "vip", "changed poses", "volumes compared", "contour points mapped back", "flat models", "models without facets", "models thinner than a layer", "commands", "bridges", "rotation bodies", "convex solids in changed poses"},
		Rule: "a case is a model (leaning, bent, flaring, on two legs, rotated, several bodies; flat or empty ones in every 8th case), a mode and settings; distinct by model, mode and settings",
		Run:  c22, Assumptions: []string{"one layer of the largest section per part may be missing or extra"}})
}

// leaning draws a model that stands on the bed and often has overhangs.
func leaning(r *rand.Rand) (*geo.IMesh, string) {
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	shear := func(m *geo.IMesh, a, b float64) *geo.IMesh {
		lo, _ := m.Bounds()
		return m.Map(func(v geo.V3) geo.V3 { return geo.V3{v[0] + a*(v[2]-lo[2]), v[1] + b*(v[2]-lo[2]), v[2]} })
	}
	switch r.Intn(8) {
	case 0:
		return anySolid(r, 60), ""
	case 1:
		return geo.RandomSolid(r, -1).Rotate(geo.RandomRot(r)), ""
	case 2: // two legs
		var ms []*geo.IMesh
		h := u(8, 20)
		d := u(5, 12)
		lean := u(0, 0.5*d/h+0.5)
		bend := r.Intn(2) == 0
		for _, s := range []float64{-1, 1} {
			n := 2 + r.Intn(3)
			var sp []geo.V3
			for i := 0; i <= n; i++ {
				t := float64(i) / float64(n)
				x := t
				if bend {
					x = t * t
				}
				sp = append(sp, geo.V3{s * (d - math.Min(lean*h, d-4)*x), 0, h * t})
			}
			rad := u(1, 2.5)
			ms = append(ms, geo.Tube("leg", sp, func(int) float64 { return rad }, 4+r.Intn(12)))
		}
		m := geo.Union(ms...)
		if r.Intn(3) > 0 {
			m = m.Rotate(geo.AxisAngle(geo.V3{0, 0, 1}, 360*r.Float64()))
		}
		return m, "bridges"
	case 3: // flaring
		var p []geo.P2
		z, q := 0.0, u(2, 6)
		for i, n := 0, 2+r.Intn(5); i < n; i++ {
			p = append(p, geo.P2{q, z})
			z += u(1, 6)
			q = math.Max(1.5, q+u(-2, 7))
		}
		return geo.Revolve("flare", p, 16+r.Intn(30)), "rotation bodies"
	case 4: // strongly bent pipe
		n := 3 + r.Intn(8)
		var sp []geo.V3
		a, l := u(30, 100)*math.Pi/180, u(20, 40)
		x, z := 0.0, 0.0
		for i := 0; i <= n; i++ {
			sp = append(sp, geo.V3{x, 0, z})
			b := a * float64(i) / float64(n)
			x += l / float64(n) * math.Sin(b)
			z += l / float64(n) * math.Cos(b)
		}
		rad := u(1.5, 4)
		return geo.Tube("bent", sp, func(int) float64 { return rad }, 3+r.Intn(20)).Rotate(geo.AxisAngle(geo.V3{0, 0, 1}, 360*r.Float64())), ""
	case 5: // convex and leaning
		return shear(run.Pick(r, geo.Box(u(4, 12), u(4, 12), u(6, 20)), geo.RandomSolid(r, 10), geo.RandomSolid(r, 6)), u(-1.6, 1.6), u(-1.6, 1.6)), ""
	default:
		return shear(geo.RandomSolid(r, -1), u(-1.6, 1.6), u(-1.6, 1.6)), ""
	}
}

var modes = []string{"3axes", "5axes", "5axes_by_profile", "vip"}

func sliceMode(mode string, mesh *Mesh, s slicers.Settings) gcode.Gcode {
	switch mode {
	case "3axes":
		return slicers.SliceByVectorToGcode(mesh, AxisZ, s)
	case "5axes":
		return slicers.Slice5Axes(mesh, s)
	case "5axes_by_profile":
		return slicers.SliceByProfile(mesh, s)
	}
	return vip.Slice(mesh, s)
}

func c22(c *run.Case) {
	r := c.R
	if c.I%8 == 0 {
		c22odd(c)
		return
	}
	m, kind := leaning(r)
	lo, hi := m.Bounds()
	m = m.Translate(geo.V3{-(lo[0] + hi[0]) / 2, -(lo[1] + hi[1]) / 2, -lo[2]})
	if r.Intn(3) == 0 {
		m = m.Translate(geo.V3{40*r.Float64() - 20, 40*r.Float64() - 20, run.Pick(r, 0, 0, 0.3)})
	}
	m = m.Shuffle(r)
	lo, hi = m.Bounds()
	H := hi[2] - lo[2]
	n := 10 + 30*r.Float64()
	if r.Intn(40) == 0 {
		n = 100 + 600*r.Float64()
		c.Event("hundreds of layers", 1)
	}
	s := stdSettings(r, H/n)
	s.GcodeSettings.LineWidth = 0.8
	s.WallThickness = run.Pick(r, 0.8, 1.6)
	s.FillDensity = run.Pick(r, 0, 10)
	s.TopLayers, s.BottomLayers = r.Intn(2), r.Intn(2)
	s.SkirtLineCount = 0
	s.Epsilon = run.Pick(r, 0.5, 2, 10, 0.05)
	s.RotationCenter = randCentre(r) // is for planes only
	mode := run.Pick(r, modes...)
	if kind == "bridges" || kind == "rotation bodies" {
		mode = run.Pick(r, "vip", "vip", mode)
	}
	if len(m.F) > 2500 && mode == "5axes" {
		c.Skip("more than 2500 facets")
	}
	what := fmt.Sprintf("%s of %s (%d facets, layers of %.4g)", mode, m.Name, len(m.F), s.LayerHeight)
	countLarge(c, m)
	c.Distinct("%v %s %v %v", m.V, mode, s.LayerHeight, s.Epsilon)
	c.Sample("%s", what)
	before := toMesh(m)
	mesh := copyMesh(before)
	g := sliceMode(mode, mesh, s)
	c.Event(mode, 1)
	c.Check(sameMesh(mesh, before), "%s: the mesh is modified", what)
	if kind != "" && mode == "vip" {
		c.Event(kind, 1)
		if strings.Contains(gcodeText(&g), "T2") {
			c.Event(kind+" in changed poses", 1)
		}
	}
	text := gcodeText(&g)
	c.Check(!strings.Contains(text, "NaN") && !strings.Contains(text, "Inf"), "%s: the g-code has numbers that are not finite", what)
	judgePrint(c, what, m, &g, text, s.LayerHeight)
}

type poseOf struct{ t1, t2 float64 }

// judgePrint compares what is printed with the model.
func judgePrint(c *run.Case, what string, m *geo.IMesh, g *gcode.Gcode, text string, t float64) {
	evs := checkMarkers(c, text, g.LayerCount(), what)
	var all []Layer
	for _, ls := range layersOf(g) {
		all = append(all, ls...)
	}
	var poses []poseOf
	bed := poseOf{}
	changed := 0
	for _, e := range evs {
		was := bed
		switch e.kind {
		case evBed:
			bed = poseOf{e.phys[1], e.phys[2]}
		case evG62:
			bed = poseOf{e.g62[1], e.g62[0]}
		case evLayer:
			poses = append(poses, bed)
		}
		if bed != was {
			changed++
		}
	}
	c.Check(len(poses) == len(all), "%s: %d markers for %d layers", what, len(poses), len(all))
	c.Event("changed poses", changed)
	isConvex := convex(m)
	ts := m.Tris()
	n := len(all)
	area := make([]float64, n)
	height := make([]float64, n)
	vol, tol, biggest := 0.0, 0.0, 0.0
	length, outside, last := 0.0, 0.0, ""
	endPart := func() {
		if os.Getenv("VRUN_FRAC") != "" && length > 0 {
			fmt.Fprintln(os.Stderr, "FRAC", outside/length, length, what)
		}
		// the surface of a cut through a concave or hollow section is a fan that is right as a whole only, see C06
		c.Check(outside < 0.6*length+0.5, "%s: %.4g of %.4g of the contours of a part are outside of the model: %s", what, outside, length, last)
		outside, length = 0, 0
	}
	for i, l := range all {
		if i > 0 && poses[i] != poses[i-1] {
			endPart()
		}
		nn := vv3(l.Norm).Unit()
		segs := pathSegs(l.Paths)
		area[i] = -geo.SignedArea(segs, nn)
		height[i] = math.NaN()
		if len(segs) > 0 {
			height[i] = segs[0].A.Dot(nn)
		}
		biggest = math.Max(biggest, area[i])
		if isConvex || len(ts)*len(segs) < 200000 {
			if isConvex {
				c.Event("convex solids in changed poses", 1)
			} else {
				c.Event("other solids in changed poses", 1)
			}
			for k, e := range segs {
				if (k+i)%3 != 0 || changed == 0 && (k+i)%9 != 0 {
					continue
				}
				p := turnZ(lean(e.A, poses[i].t2), -poses[i].t1) // the bed was inclined by -t2
				l := e.A.Dist(e.B)
				length += l
				if d := surfDist(ts, p); d > 5e-3 && math.Abs(windingNumber(ts, p)) < 0.5 {
					outside += l
					last = fmt.Sprintf("layer %d, printed with the bed turned by %v and inclined by %v, has a contour through %v; this is the point %v of the model, %.4g away from it", i, poses[i].t1, poses[i].t2, e.A, p, d)
					c.Check(!isConvex, "%s: %s", what, last)
				}
				c.Event("contour points mapped back", 1)
			}
		}
	}
	endPart()
	parts := 0
	for i := 0; i < n; i++ {
		same := func(a, b int) float64 { // spacing of layers of one part
			if a < 0 || b >= n || poses[a] != poses[b] || vv3(all[a].Norm).Dist(vv3(all[b].Norm)) > 1e-9 {
				return 0
			}
			d := height[b] - height[a]
			if !(d > 0) || d > t*(1+1e-6)+1e-9 {
				return 0
			}
			return d
		}
		up, down := same(i, i+1), same(i-1, i)
		w := up
		if w == 0 {
			w = down
		}
		if w == 0 {
			w = t
		}
		if up == 0 || down > 0 && math.Abs(up-down) > 1e-4*t {
			parts++
			tol += t * math.Max(biggest, math.Abs(area[i]))
		}
		vol += w * area[i]
	}
	v := m.Volume()
	c.Check(near(vol, v, tol+0.03*v+0.02), "%s: %d layers in %d parts (pose changed %d times) print the volume %.6g, the model has %.6g (one layer of the largest section is %.6g)", what, n, parts, changed, vol, v, t*biggest)
	if tol < 0.25*v {
		c.Event("volumes compared", 1)
	}
}

// c22odd: models that are empty, flat or thinner than a layer.
func c22odd(c *run.Case) {
	r := c.R
	var ts [][3]geo.V3
	kind := r.Intn(4)
	h := 0.05 + 2*r.Float64()
	switch kind {
	case 0:
		c.Event("models without facets", 1)
	case 1: // flat
		m := geo.RandomSolid(r, 1)
		for _, t := range m.Tris() {
			for k := range t {
				t[k][2] = 0
			}
			ts = append(ts, t)
		}
		if r.Intn(3) == 0 {
			ts = ts[:1]
		}
		c.Event("flat models", 1)
	case 2: // a layer or two
		m := geo.RandomSolid(r, -1)
		lo, hi := m.Bounds()
		k := h * run.Pick(r, 0.001, 0.3, 0.5, 0.99, 1, 1.3, 1.99, 2.5) / (hi[2] - lo[2])
		ts = m.Scale(geo.V3{1, 1, k}).Translate(geo.V3{0, 0, -lo[2] * k}).Tris()
		c.Event("models thinner than a layer", 1)
	case 3: // open or a soup
		ts = randFacets(r, 1+r.Intn(6))
		for i := range ts {
			for k := range ts[i] {
				for j := range ts[i][k] {
					if !(math.Abs(ts[i][k][j]) < 50) {
						ts[i][k][j] = math.Round(100*r.Float64()) / 2
					}
				}
			}
		}
		c.Event("open models", 1)
	}
	s := stdSettings(r, h)
	s.GcodeSettings.LineWidth = 0.8
	s.WallThickness = run.Pick(r, 0.8, 1.6)
	s.Epsilon = 1
	mode := run.Pick(r, modes...)
	c.Distinct("%v %s", ts, mode)
	c.Sample("%s of %d facets", mode, len(ts))
	if c.I%16 == 0 && kind != 3 {
		d := cmdDir(c, "a\n", "b\n")
		f, out := filepath.Join(d, "in.stl"), filepath.Join(d, "out.gcode")
		must(os.WriteFile(f, stlBytes(ts), 0644))
		res := command(c, d, "", "goosli", "--stl="+f, "--gcode="+out, "--slicing_type="+mode, "--layer_height="+fdot15(h))
		c.Check(!strings.Contains(res.text, "panic") && !strings.Contains(res.text, "goroutine "), "goosli crashed in mode %s on %d facets: %s", mode, len(ts), res.text)
		c.Event("commands", 1)
		if len(ts) > 0 {
			c.Check(res.code == 0, "goosli failed in mode %s on %d facets: %s", mode, len(ts), res.text)
		}
		return
	}
	var mesh Mesh
	for _, t := range ts {
		mesh.Triangles = append(mesh.Triangles, NewTriangle(pt(t[0]), pt(t[1]), pt(t[2])))
	}
	g := sliceMode(mode, &mesh, s)
	text := gcodeText(&g)
	c.Check(kind == 3 || !strings.Contains(text, "NaN") && !strings.Contains(text, "Inf"), "%s: the g-code has numbers that are not finite", mode)
	if kind == 0 || kind == 1 {
		c.Check(!strings.Contains(text, "G1 X") && !strings.Contains(text, "G1 Y"), "%s of a model without height prints something: %.300s", mode, text)
	}
	checkMarkers(c, text, g.LayerCount(), mode)
}
