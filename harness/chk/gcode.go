package chk

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
)

// ---- generated plans

func randCoord(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return float64(r.Intn(21) - 10)
	case 1:
		return float64(r.Intn(2001)-1000) / 2000 // halves of the output precision
	case 2:
		return -0.0004 * r.Float64() // is written as -0.000
	case 3:
		return 600*r.Float64() - 300
	}
	return 80*r.Float64() - 40
}

func randPath(r *rand.Rand, long bool) Path {
	n := 1 + r.Intn(8)
	if r.Intn(4000) == 0 {
		n = 1000 + r.Intn(3000)
	}
	if r.Intn(12) > 0 && n < 2 {
		n = 2
	}
	var p Path
	for i := 0; i < n; i++ {
		q := Point{X: randCoord(r), Y: randCoord(r), Z: math.Abs(randCoord(r))}
		if i > 0 {
			o := p.Points[i-1]
			switch r.Intn(10) { // some coordinates are the same as of the previous point
			case 0, 1, 2, 3:
				q.Z = o.Z
			case 4:
				q.X = o.X
				q.Z = o.Z
			case 5:
				q.Y = o.Y
				q.Z = o.Z
			case 6: // less than the output precision
				q = Point{X: o.X + 0.0009*(r.Float64()-0.5), Y: o.Y + 0.0009*(r.Float64()-0.5), Z: o.Z + 0.0009*(r.Float64()-0.5)}
			case 7:
				q.X, q.Z = o.X+3e-7, o.Z-3e-7
			}
			if r.Intn(40) == 0 {
				q = o
			}
		}
		if long && r.Intn(3) == 0 {
			q.X *= 20
		}
		p.Points = append(p.Points, q)
	}
	if r.Intn(3) == 0 && n > 2 {
		p.Points = append(p.Points, p.Points[0])
	}
	return p
}

func randPaths(r *rand.Rand, long bool) []Path {
	if r.Intn(4) == 0 {
		return nil
	}
	var out []Path
	for k := r.Intn(4); k > 0; k-- {
		p := randPath(r, long)
		if len(out) > 0 && r.Intn(4) == 0 { // starts where the previous path ended
			prev := out[len(out)-1].Points
			p.Points[0] = prev[len(prev)-1]
		}
		out = append(out, p)
	}
	return out
}

// a number of speeds with many coincidences: equal ones, the speed of bed movements
func randSpeed(r *rand.Rand) int {
	return run.Pick(r, 300, 300, 600, 1000, 1200, 1800, 3000, 1+r.Intn(6000), 1+r.Intn(40000))
}

func randGcodeSettings(r *rand.Rand) gcode.GcodeSettings {
	s := gcode.GcodeSettings{
		BarDiameter:  run.Pick(r, 1.75, 2.85, 1+2*r.Float64()),
		Flow:         run.Pick(r, 1, 0, 0.95, 0.5, 0.1+0.9*r.Float64()),
		LayerHeight:  run.Pick(r, 0.2, 0.1, 0.5, 0.05+r.Float64()),
		LineWidth:    run.Pick(r, 0.4, 0.2, 0.8, 0.1+r.Float64()),
		FanOffLayer1: r.Intn(2) == 0, PrintSpeed: randSpeed(r), PrintSpeedLayer1: randSpeed(r), PrintSpeedWall: randSpeed(r),
		Retraction: r.Intn(2) == 0, RetractionSpeed: randSpeed(r), RetractionDistance: run.Pick(r, 1, 0.5, 4.5, 0.05+5*r.Float64()),
	}
	if r.Intn(3) == 0 { // thick strokes, to exceed the limit of the extruder counter
		s.LineWidth, s.LayerHeight, s.BarDiameter = 1+4*r.Float64(), 1+2*r.Float64(), 1
	}
	return s
}

func randAngle(r *rand.Rand) float64 {
	return run.Pick(r, 0, 90, 180, -90, 270, 360, 450, 45, 0.0004, 720*r.Float64()-360, 720*r.Float64()-360)
}

func randBed(r *rand.Rand, g *gcode.Gcode) {
	for k := 1 + r.Intn(4); k > 0; k-- {
		switch r.Intn(4) {
		case 0, 1:
			g.Add(gcode.RotateZ{Angle: randAngle(r)})
		case 2:
			g.Add(gcode.InclineX{})
		case 3:
			g.Add(gcode.InclineXBack{})
		}
	}
}

// randPlan makes a program of layers and bed commands; bed: 0 - no bed commands, 1 - T1/T2, 2 - G62
func randPlan(r *rand.Rand) gcode.Gcode {
	g := gcode.NewGcode(randGcodeSettings(r))
	bed := r.Intn(3)
	parts := 1 + r.Intn(5)
	long := r.Intn(3) == 0
	many := -1 // part of hundreds or thousands of layers
	if r.Intn(150) == 0 {
		many = r.Intn(parts)
	}
	if bed > 0 && r.Intn(4) == 0 {
		randBed(r, &g)
	}
	for i := 0; i < parts; i++ {
		n := run.Pick(r, 0, 1, 1, 2, 3, 6)
		var ls []Layer
		for k := 0; k < n; k++ {
			ls = append(ls, Layer{Order: k, Norm: AxisZ, Paths: randPaths(r, long), MiddlePs: randPaths(r, long), InnerPs: randPaths(r, long), Fill: randPaths(r, long)})
		}
		if i == many {
			for k, n := n, 200+r.Intn(1500); k < n; k++ {
				ls = append(ls, Layer{Order: k, Norm: AxisZ, Paths: []Path{randPath(r, false)}, Fill: []Path{randPath(r, false)}})
			}
		}
		g.AddLayers(ls)
		if bed == 1 && r.Intn(5) > 0 {
			randBed(r, &g)
		} else if bed == 2 {
			g.Add(gcode.RotateXZ{AngleX: randAngle(r), AngleZ: randAngle(r)})
		}
	}
	return g
}

// realPlan is the output of slicing of a solid.
func realPlan(c *run.Case) gcode.Gcode {
	r := c.R
	mode := run.Pick(r, "3axes", "3axes", "vip", "vip", "5axes", "5axes_by_profile")
	var m *geo.IMesh
	if mode == "3axes" {
		m = anySolid(r, 100)
	} else {
		m, _ = leaning(r)
	}
	lo, hi := m.Bounds()
	H := hi[2] - lo[2]
	m = m.Translate(geo.V3{-(lo[0] + hi[0]) / 2, -(lo[1] + hi[1]) / 2, -lo[2]})
	if mode == "3axes" {
		m = m.Translate(geo.V3{(lo[0]+hi[0])/2 + 10*r.Float64(), (lo[1]+hi[1])/2 - 30*r.Float64(), 0})
	}
	s := stdSettings(r, math.Max(0.2, H/25))
	gs := randGcodeSettings(r)
	gs.LineWidth = run.Pick(r, 0.4, 0.6, 0.8)
	s.GcodeSettings = &gs
	s.FillDensity = run.Pick(r, 10, 20, 50)
	s.FillingType = run.Pick(r, "Lines", "Squares", "Triangles")
	s.PlanesFile = filepath.Join(c.Tmp(), "planes.txt")
	text := ""
	if mode == "vip" && r.Intn(2) == 0 {
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			text += fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%.3f\n", 2*r.Float64()-1, 2*r.Float64()-1, H*float64(i+1)/float64(n+1), r.Intn(2) == 0, 360*r.Float64()-180)
		}
	}
	must(os.WriteFile(s.PlanesFile, []byte(text), 0644))
	if mode != "3axes" && len(m.F) > 2400 { // 5axes simplifies larger ones
		mode = "3axes"
	}
	c.Event("plans of the mode "+mode, 1)
	return sliceMode(mode, toMesh(m), s)
}

// cliProgram is what the goosli command writes for a solid, and the plan that its options ask for.
func cliProgram(c *run.Case) (gcode.Gcode, string) {
	r := c.R
	m := placed(r, -1, 0).Round32()
	lo, hi := m.Bounds()
	H := hi[2] - lo[2]
	m = m.Translate(geo.V3{0, 0, -lo[2]}).Round32()
	x := randOptions(c, r, math.Max(0.1, H/(1+10*r.Float64())))
	d := cmdDir(c, ";BEGIN\n", ";END\n")
	x.s.PlanesFile = filepath.Join(d, "planes_file.txt")
	x.mode = run.Pick(r, "3axes", "3axes", "vip", "vip", "5axes", "5axes_by_profile")
	text := ""
	if x.mode == "vip" && r.Intn(2) == 0 {
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			cx, cy := (lo[0]+hi[0])/2+x.o[0], (lo[1]+hi[1])/2+x.o[1]
			text += fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%.3f\n", cx, cy, x.o[2]+H*float64(i+1)/float64(n+1), r.Intn(2) == 0, 360*r.Float64()-180)
		}
	}
	must(os.WriteFile(x.s.PlanesFile, []byte(text), 0644))
	f, out := filepath.Join(d, "in.stl"), filepath.Join(d, "r.gcode")
	must(os.WriteFile(f, stlBytes(m.Tris()), 0644))
	args := append([]string{"--stl=" + f, "--gcode=" + out, "--slicing_type=" + x.mode}, x.args...)
	res := command(c, d, "", "goosli", args...)
	c.Check(res.code == 0, "goosli %v failed: %s", args, res.text)
	b, err := os.ReadFile(out)
	c.Check(err == nil, "goosli wrote nothing: %v", err)
	body, ok1 := strings.CutPrefix(string(b), ";BEGIN\n")
	body, ok2 := strings.CutSuffix(body, ";END\n")
	c.Check(ok1 && ok2, "goosli %v: header or footer of the file is missing", args)
	c.Event("programs of the goosli command", 1)
	return sliceMode(x.mode, toMesh(m.Translate(x.o)), x.s), body
}

func gcodeText(g *gcode.Gcode) string {
	var b bytes.Buffer
	g.ToOutput(&b)
	return b.String()
}

// ---- the same plan as a list of steps

type step struct {
	cmd   gcode.Command // bed command or nil
	layer int           // number of the layer in the print
	group int           // 0..3
	first bool          // the first path after a bed command or of the print
	path  Path
}

func planSteps(g *gcode.Gcode) (out []step, layers int) {
	first := true
	for _, c := range g.Cmds {
		lm, ok := c.(gcode.LayersMoving)
		if !ok {
			out = append(out, step{cmd: c})
			continue
		}
		for _, l := range lm.Layers {
			for gr, ps := range [][]Path{l.Paths, l.MiddlePs, l.InnerPs, l.Fill} {
				for _, p := range ps {
					out = append(out, step{layer: layers, group: gr, path: p, first: first})
					first = false
				}
			}
			layers++
		}
	}
	return
}

func pathLen(p Path) float64 {
	s := 0.0
	for i := 1; i < len(p.Points); i++ {
		s += v3(p.Points[i]).Dist(v3(p.Points[i-1]))
	}
	return s
}

func gcodeCase(c *run.Case) (g gcode.Gcode, evs []event, steps []step, layers int) {
	text := ""
	switch {
	case c.I%80 == 79:
		g, text = cliProgram(c)
	case c.I%8 == 7:
		g = realPlan(c)
	default:
		g = randPlan(c.R)
	}
	steps, layers = planSteps(&g)
	again := gcodeText(&g)
	if text == "" {
		text = again
		again = gcodeText(&g)
	}
	evs, err := replay(text)
	c.Check(err == nil, "the output is not valid g-code: %v", err)
	ev2, err := replay(again)
	c.Check(err == nil && len(ev2) == len(evs), "the second output of the same program is different")
	paths, beds := 0, 0
	for _, s := range steps {
		if s.cmd != nil {
			beds++
		} else {
			paths++
		}
	}
	c.Event("paths in plans", paths)
	c.Event("bed commands in plans", beds)
	c.Event("g-code events replayed", len(evs))
	if paths > 0 {
		c.Distinct("%+v %v %v", g.Settings, len(evs), steps[len(steps)-1])
	}
	c.Sample("%d commands, %d layers, %d paths, %d bed commands, retraction %v -> %d events", len(g.Cmds), layers, paths, beds, g.Settings.Retraction, len(evs))
	return
}

const posTol = 0.0006

func round3(v geo.V3) geo.V3 {
	for k := range v {
		v[k] = math.Round(v[k]*1000) / 1000
	}
	return v
}

func init() {
	run.Register(&run.Property{ID: "C08", Level: "exploration", Quick: 20000, Full: 400000, Min: 10000, External: true,
		Must: []string{"programs of the goosli command", "plans of the mode vip", "planned strokes drawn", "travels", "travels after bed commands", "layers in order"},
		Rule: "a case is a random program of layers and bed commands (or the program of a solid sliced in any mode, or written by the goosli command for random options); distinct by settings, number of events and last step; non-trivial if it has paths",
		Run:  c08})
	run.Register(&run.Property{ID: "C09", Level: "exploration", Quick: 20000, Full: 400000, Min: 10000, External: true,
		Must: []string{"programs of the goosli command", "plans of the mode vip", "segments with checked feed", "counter resets", "retractions", "travels without retraction", "programs with flow not 1"},
		Rule: "as for C08",
		Run:  c09})
	run.Register(&run.Property{ID: "C10", Level: "exploration", Quick: 20000, Full: 400000, Min: 10000, External: true,
		Must: []string{"programs of the goosli command", "plans of the mode vip", "segments of layer 0", "wall segments", "infill segments", "segments after bed commands", "layer 0 with fan off"},
		Rule: "as for C08",
		Run:  c10})
	run.Register(&run.Property{ID: "C11", Level: "exploration", Quick: 20000, Full: 400000, Min: 10000, External: true,
		Must: []string{"programs of the goosli command", "plans of the mode vip", "bed movements", "G62 poses", "approaches after bed movements", "repeated bed commands"},
		Rule: "as for C08",
		Run:  c11})
}

func c08(c *run.Case) {
	_, evs, steps, _ := gcodeCase(c)
	type exp struct {
		to    geo.V3
		print bool
		what  string
		layer int
	}
	// what has to be executed
	var want []exp
	pos := geo.V3{}
	havePos := false
	afterBed := false
	for _, s := range steps {
		if s.cmd != nil {
			switch s.cmd.(type) {
			case gcode.RotateXZ: // does not move the nozzle
			default:
				want = append(want, exp{geo.V3{0, 0, 200}, false, "bed command", -1})
				pos, havePos = geo.V3{0, 0, 200}, true
				afterBed = true
			}
			continue
		}
		p := s.path.Points
		if havePos {
			want = append(want, exp{pos.Add(geo.V3{0, 0, 0.5}), false, "rise before a path", s.layer})
		} else {
			want = append(want, exp{geo.V3{0, 0, math.NaN()}, false, "first move", s.layer})
		}
		want = append(want, exp{v3(p[0]).Add(geo.V3{0, 0, 0.5}), false, "travel to the start of a path", s.layer},
			exp{v3(p[0]), false, "descent to the start of a path", s.layer})
		for _, q := range p[1:] {
			want = append(want, exp{v3(q), true, "stroke", s.layer})
		}
		pos, havePos = v3(p[len(p)-1]), true
		c.Event("travels", 1)
		if afterBed {
			c.Event("travels after bed commands", 1)
			afterBed = false
		}
	}
	// what was executed
	var got []event
	lastLayer := -1
	for _, e := range evs {
		if e.kind == evLayer {
			c.Check(e.layer == lastLayer+1, "line %d: layer %d after layer %d", e.line, e.layer, lastLayer)
			lastLayer = e.layer
			c.Event("layers in order", 1)
		}
		if e.kind == evMove && e.hasPos {
			got = append(got, e)
		}
	}
	close := func(a, b geo.V3) bool {
		for k := range a {
			if !(math.Abs(a[k]-b[k]) <= posTol) && !math.IsNaN(b[k]) {
				return false
			}
		}
		return true
	}
	// Alignment of both lists. The position of the nozzle is that of the last executed move, so after i executed moves
	// and k planned steps: a step may be executed by the next move, a step that is already reached needs no move, a
	// move to the point of the last step changes nothing.
	at := func(i int) geo.V3 {
		if i == 0 {
			return geo.V3{math.Inf(1), 0, 0}
		}
		return got[i-1].to
	}
	cur := []int{0}
	for k, w := range want {
		for n := 0; n < len(cur); n++ { // moves that change nothing
			if i := cur[n]; i < len(got) && k > 0 && close(got[i].to, want[k-1].to) && (n+1 == len(cur) || cur[n+1] != i+1) {
				cur = append(cur[:n+1], append([]int{i + 1}, cur[n+1:]...)...)
			}
		}
		var next []int
		add := func(i int) {
			if len(next) == 0 || next[len(next)-1] < i {
				next = append(next, i)
			}
		}
		for _, i := range cur {
			if close(at(i), w.to) {
				add(i)
			}
			if i < len(got) && close(got[i].to, w.to) {
				tiny := got[i].from.Dist(got[i].to) < 0.002
				if w.print && (got[i].hasE || tiny) && (tiny || got[i].layer == w.layer) || !w.print && (!got[i].hasE || got[i].de == 0 || tiny) {
					add(i + 1)
				}
			}
		}
		if len(next) == 0 {
			i := cur[len(cur)-1]
			c.Check(i < len(got), "output ends before step %d: %s to %v", k, w.what, w.to)
			c.Fail("line %d %q: moves from %v to %v (extrudes: %v, layer %d), planned step %d is %s to %v (layer %d)",
				got[i].line, got[i].text, got[i].from, got[i].to, got[i].hasE, got[i].layer, k, w.what, w.to, w.layer)
		}
		cur = next
		if w.print {
			c.Event("planned strokes drawn", 1)
		}
	}
	i := cur[len(cur)-1]
	for ; i < len(got); i++ {
		c.Check(len(want) > 0 && close(got[i].to, want[len(want)-1].to), "line %d %q: a move that is not planned", got[i].line, got[i].text)
	}
}

func c09(c *run.Case) {
	g, evs, steps, _ := gcodeCase(c)
	s := g.Settings
	flow := s.Flow
	if flow == 0 {
		flow = 1
	} else if flow != 1 {
		c.Event("programs with flow not 1", 1)
	}
	k := flow * 4 * s.LineWidth * s.LayerHeight / (math.Pi * s.BarDiameter * s.BarDiameter)
	total := 0.0
	for _, st := range steps {
		if st.cmd == nil {
			total += k * pathLen(st.path)
		}
	}
	fed, net := 0.0, 0.0 // filament of printing moves, filament of all moves
	back, resets := 0.0, 0
	for _, e := range evs {
		switch e.kind {
		case evReset:
			resets++
			if e.de != 0 {
				c.Event("counter resets", 1)
			}
		case evMove:
			net += e.de
			if e.hasE && e.hasPos {
				c.Check(near(back, 0, 0.0022), "line %d %q: prints while the filament is pulled back by %.4f", e.line, e.text, -back)
				l := e.from.Dist(e.to)
				c.Check(near(e.de, k*l, 0.0012+0.002*k), "line %d %q: feeds %.4f for a segment of %.4f, expected %.4f", e.line, e.text, e.de, l, k*l)
				fed += e.de
				c.Event("segments with checked feed", 1)
			} else if e.hasE { // only filament
				if math.Abs(e.de) > 0.0022+0.002*k {
					c.Check(s.Retraction, "line %d %q: moves filament by %.4f though retraction is off", e.line, e.text, e.de)
				}
				if near(e.de, 0, 0.0022+0.002*k) { // a very short segment
					fed += e.de
				} else {
					back += e.de
					c.Event("retractions", 1)
				}
			} else if math.Hypot(e.to[0]-e.from[0], e.to[1]-e.from[1]) > 0.0011 && !(e.to[2] == 200 && e.to[0] == 0 && e.to[1] == 0) {
				if s.Retraction {
					c.Check(near(back, -s.RetractionDistance, 0.0024), "line %d %q: travel with the filament pulled back by %.4f instead of %.4f", e.line, e.text, -back, s.RetractionDistance)
				} else {
					c.Check(near(back, 0, 1e-9), "line %d %q: the filament is pulled back by %.4f", e.line, e.text, -back)
					c.Event("travels without retraction", 1)
				}
			}
			if !s.Retraction {
				c.Check(e.de > -1e-9, "line %d %q: the filament is pulled back by %.4f though retraction is off", e.line, e.text, -e.de)
			}
		}
	}
	tol := 0.0012*float64(1+resets) + 1e-9*total
	c.Check(near(fed, total, tol+0.002), "%.4f of filament was fed, %.4f is needed (%d counter resets)", fed, total, resets)
	c.Check(near(net, total, tol+0.0022), "sum of all filament moves is %.4f, %.4f is needed (%d counter resets)", net, total, resets)
}

func c10(c *run.Case) {
	g, evs, _, _ := gcodeCase(c)
	s := g.Settings
	afterBed := false
	// the order of strokes in the output is that of the plan (C08), so strokes are matched with the plan in order;
	// strokes that may be lost by rounding are left out
	type want struct {
		layer int
		wall  bool
		to    geo.V3
		l     float64
	}
	var plan []want
	steps, _ := planSteps(&g)
	for _, st := range steps {
		if st.cmd == nil {
			for i := 1; i < len(st.path.Points); i++ {
				a, b := v3(st.path.Points[i-1]), v3(st.path.Points[i])
				plan = append(plan, want{st.layer, st.group != 3, b, a.Dist(b)})
			}
		}
	}
	n := 0
	for _, e := range evs {
		if e.kind == evBed || e.kind == evG62 {
			afterBed = true
		}
		if e.kind != evMove || !e.hasE || !e.hasPos || e.from.Dist(e.to) <= 0.005 {
			continue
		}
		for n < len(plan) && plan[n].l < 0.01 && (plan[n].to.Dist(e.to) > 0.0011 || plan[n].l < 0.003 || !near(plan[n].l, e.from.Dist(e.to), 0.003)) {
			n++
		}
		c.Check(n < len(plan) && plan[n].to.Dist(e.to) < 0.0011, "line %d %q: a stroke that is not in the plan", e.line, e.text)
		w := plan[n]
		n++
		speed := s.PrintSpeed
		what := "infill segments"
		switch {
		case w.layer == 0:
			speed, what = s.PrintSpeedLayer1, "segments of layer 0"
		case w.wall:
			speed, what = s.PrintSpeedWall, "wall segments"
		}
		c.Check(e.f == float64(speed), "line %d %q: printed at F%g, has to be F%d (%s, layer %d)", e.line, e.text, e.f, speed, what, w.layer)
		c.Event(what, 1)
		if afterBed {
			c.Event("segments after bed commands", 1)
			afterBed = false
		}
		fan := !(w.layer == 0 && s.FanOffLayer1)
		if !fan {
			c.Event("layer 0 with fan off", 1)
		}
		c.Check(e.fan == fan, "line %d %q: fan %v in layer %d, fan_off_layer1 is %v", e.line, e.text, e.fan, w.layer, s.FanOffLayer1)
	}
	for ; n < len(plan); n++ {
		c.Check(plan[n].l < 0.01, "a planned stroke is not printed")
	}
}

func c11(c *run.Case) {
	g, evs, _, _ := gcodeCase(c)
	want := [3]float64{} // physical pose
	i := 0
	next := func() *event {
		if i < len(evs) {
			i++
			return &evs[i-1]
		}
		return nil
	}
	// events between bed moves: the nozzle is at the safe place when a bed axis moves
	pos := geo.V3{math.NaN(), 0, 0}
	sent := false
	pendingApproach := false
	var bedSeen []event
	for e := next(); e != nil; e = next() {
		switch e.kind {
		case evMove:
			if e.tool == 0 && e.hasPos {
				if pendingApproach && !(e.to[0] == 0 && e.to[1] == 0 && e.to[2] == 200) {
					c.Check(e.to[0] == 0 && e.to[1] == 0 && e.to[2] >= 200, "line %d %q: after a bed movement the nozzle leaves X0 Y0 Z200 not upwards", e.line, e.text)
					c.Event("approaches after bed movements", 1)
					pendingApproach = false
				}
				pos, sent = e.to, true
			}
		case evBed:
			c.Check(!e.hasPos, "line %d %q: nozzle and bed move together", e.line, e.text)
			c.Check(sent && pos == geo.V3{0, 0, 200}, "line %d %q: bed moves while the nozzle is at %v", e.line, e.text, pos)
			c.Event("bed movements", 1)
			pendingApproach = true
			bedSeen = append(bedSeen, *e)
		case evG62:
			c.Event("G62 poses", 1)
			bedSeen = append(bedSeen, *e)
		}
	}
	// poses in order; a command that does not change the pose may have no movement
	k := 0
	repeat := 0
	type pose struct {
		t1, t2 float64
		g62    *[2]float64
	}
	var poses []pose
	for _, cmd := range g.Cmds {
		switch b := cmd.(type) {
		case gcode.RotateZ:
			want[1] = b.Angle
		case gcode.InclineX:
			want[2] = 60
		case gcode.InclineXBack:
			want[2] = 0
		case gcode.RotateXZ:
			poses = append(poses, pose{g62: &[2]float64{b.AngleX, b.AngleZ}})
			continue
		default:
			continue
		}
		poses = append(poses, pose{t1: want[1], t2: want[2]})
		repeat++
	}
	if repeat > 3 {
		c.Event("repeated bed commands", repeat)
	}
	cur := [3]float64{}
	for n, p := range poses {
		if p.g62 != nil {
			c.Check(k < len(bedSeen) && bedSeen[k].kind == evG62, "pose %d: G62 X%g Z%g is missing", n, p.g62[0], p.g62[1])
			e := bedSeen[k]
			k++
			c.Check(near(e.g62[0], p.g62[0], posTol) && near(e.g62[1], p.g62[1], posTol), "line %d %q: pose X%g Z%g was requested", e.line, e.text, p.g62[0], p.g62[1])
			continue
		}
		if k < len(bedSeen) && bedSeen[k].kind == evBed && near(bedSeen[k].phys[1], p.t1, posTol) && near(bedSeen[k].phys[2], p.t2, posTol) {
			cur = bedSeen[k].phys
			k++
		}
		if !(near(cur[1], p.t1, posTol) && near(cur[2], p.t2, posTol)) {
			what := "the movement is missing"
			if k < len(bedSeen) {
				e := bedSeen[k]
				what = fmt.Sprintf("line %d %q brings the bed to rotation %.4f and inclination %.4f", e.line, strings.TrimSpace(e.text), e.phys[1], e.phys[2])
			}
			c.Fail("bed command %d requests rotation %g and inclination %g: %s", n, p.t1, p.t2, what)
		}
	}
	c.Check(k == len(bedSeen), "there are %d bed movements that were not requested", len(bedSeen)-k)
	// the filament extruder is selected again and its counter goes on
	last := 0.0
	for _, e := range evs {
		switch e.kind {
		case evMove:
			c.Check(!(e.hasE && e.tool != 0), "line %d %q: prints with tool %d", e.line, e.text, e.tool)
			if e.hasE {
				last = e.phys[0]
			}
		case evReset:
			// a reset either starts from zero or repeats the value
			c.Check(e.cnt == 0 || math.Abs(e.de) < 0.0011, "line %d %q: the counter of filament was %.4f", e.line, e.text, e.cnt-e.de)
		case evBed:
			c.Check(e.phys[0] == last, "line %d %q: bed command moves the filament", e.line, e.text)
		case evLayer:
			c.Check(e.tool == 0, "line %d: layer starts with tool %d", e.line, e.tool)
		}
	}
}
