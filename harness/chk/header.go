package chk

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() {
	run.Register(&run.Property{ID: "C12", Level: "exploration", Quick: 700, Full: 20000, Min: 450, External: true,
		Must: []string{"commands", "layer markers", "placeholders filled", "several parts", "templates of the repository", "options left out", "generated programs", "speeds compared", "feeds compared", "heights compared", "fan off in the first layer", "retractions", "moved models"},
		Rule: "a case is a solid, a set of command line options (some left out) and templates with repeated placeholders, given to the goosli command, or a generated program of layers and bed commands; distinct by model, options and templates",
		Run:  c12})
}

type cliOptions struct {
	args  []string
	s     slicers.Settings
	o     geo.V3
	mode  string
	speed [3]int // print, first layer, walls
	given map[string]bool
}

// randOptions draws options of the goosli command; what is left out has its documented default.
func randOptions(c *run.Case, r *rand.Rand, h float64) cliOptions {
	g := gcode.GcodeSettings{}
	x := cliOptions{given: map[string]bool{}}
	give := func(name string) bool {
		ok := r.Intn(3) > 0
		x.given[name] = ok
		if !ok {
			c.Event("options left out", 1)
		}
		return ok
	}
	fl := func(name string, def float64, v float64) float64 {
		if !give(name) {
			return def
		}
		v = math.Round(v*1000) / 1000
		x.args = append(x.args, "--"+name+"="+fdot15(v))
		return v
	}
	in := func(name string, def int, v int) int {
		if !give(name) {
			return def
		}
		x.args = append(x.args, "--"+name+"="+strconv.Itoa(v))
		return v
	}
	bo := func(name string) bool {
		if !give(name) {
			return false
		}
		x.args = append(x.args, "--"+name)
		return true
	}
	x.s.LayerHeight = math.Round(h*1000) / 1000
	x.args = append(x.args, "--layer_height="+fdot15(x.s.LayerHeight))
	g.LayerHeight = x.s.LayerHeight
	x.o = geo.V3{fl("originx", 0, 100*r.Float64()-50), fl("originy", 0, 100*r.Float64()-50), fl("originz", 0, 16*r.Float64()-6)}
	x.s.RotationCenter = Point{X: fl("rotcx", 0, 20*r.Float64()-10), Y: fl("rotcy", 0, 20*r.Float64()-10), Z: fl("rotcz", 0, 20*r.Float64()-10)}
	x.s.Epsilon = fl("epsilon", 10, 1+20*r.Float64())
	g.LineWidth = fl("line_width", 0.4, run.Pick(r, 0.3, 0.5, 0.8, 1))
	x.s.WallThickness = fl("wall_thickness", 1.2, g.LineWidth*float64(1+r.Intn(4)))
	x.s.FillDensity = in("fill_density", 20, run.Pick(r, 0, 5, 10, 35, 100))
	x.s.TopLayers = in("top_layers", 3, r.Intn(5))
	x.s.BottomLayers = in("bottom_layers", 3, r.Intn(5))
	x.s.BedTemperature = in("bed_temperature", 60, 30+r.Intn(80))
	x.s.ExtruderTemperature = in("extruder_temperature", 200, 150+r.Intn(120))
	x.speed = [3]int{in("print_speed", 50, 10+r.Intn(100)), in("print_speed_layer1", 50, 10+r.Intn(100)), in("print_speed_wall", 50, 10+r.Intn(100))}
	g.PrintSpeed, g.PrintSpeedLayer1, g.PrintSpeedWall = 60*x.speed[0], 60*x.speed[1], 60*x.speed[2]
	g.FanOffLayer1 = bo("fan_off_layer1")
	x.s.FillingType = "Lines"
	if give("filling_type") {
		x.s.FillingType = run.Pick(r, "Lines", "Squares", "Triangles")
		x.args = append(x.args, "--filling_type="+x.s.FillingType)
	}
	if r.Intn(2) == 0 {
		g.Retraction = true
		g.RetractionSpeed = 600 + r.Intn(3000)
		g.RetractionDistance = 0.5 + float64(r.Intn(10))/2
		x.args = append(x.args, "--retraction_on", "--retraction_speed="+strconv.Itoa(g.RetractionSpeed), "--retraction_distance="+fdot15(g.RetractionDistance))
	}
	x.s.ColorizedAngle = fl("angle", 30, 20+30*r.Float64())
	x.s.UnitVector = AxisZ
	x.s.SupportsOn = r.Intn(8) == 0
	if x.s.SupportsOn {
		x.args = append(x.args, "--supports_on")
	}
	x.s.SupportOffset = fl("support_offset", 1, 2*r.Float64())
	g.BarDiameter = fl("bar_diameter", 1.75, run.Pick(r, 1.75, 2.85, 1))
	g.Flow = fl("flow", 1, 0.5+r.Float64()/2)
	x.s.SkirtLineCount = in("skirt_line_count", 3, r.Intn(5))
	x.mode = "vip"
	x.s.PlanesFile = "planes_file.txt" // in the working directory
	x.s.GcodeSettings = &g
	return x
}

var placeholders = []string{"{datetime}", "{layer_height}", "{wall_thickness}", "{fill_density}", "{bed_temperature}", "{extruder_temperature}", "{print_speed}", "{layer_count}"}

func randTemplate(r *rand.Rand) string {
	var b strings.Builder
	for i, n := 0, 1+r.Intn(25); i < n; i++ {
		switch r.Intn(5) {
		case 0:
			b.WriteString("G1 X10 {" + strconv.Itoa(r.Intn(5)) + "}\n")
		case 1:
			b.WriteString(";text $1 %d {unknown} \\n\n")
		default:
			p := placeholders[1+r.Intn(len(placeholders)-1)]
			b.WriteString(run.Pick(r, ";a ", "M109 S", "x", "") + p + run.Pick(r, "\n", " ", "", p))
		}
	}
	if r.Intn(3) == 0 {
		b.WriteString("\n;date <{datetime}>")
	}
	b.WriteString("\n")
	return b.String()
}

func fill3(v float64) string { return strconv.FormatFloat(v, 'f', 3, 64) }

// expand puts the values into a template
func (x cliOptions) expand(t string, layers int) string {
	for k, v := range map[string]string{
		"{layer_height}": fill3(x.s.LayerHeight), "{wall_thickness}": fill3(x.s.WallThickness), "{fill_density}": strconv.Itoa(x.s.FillDensity),
		"{bed_temperature}": strconv.Itoa(x.s.BedTemperature), "{extruder_temperature}": strconv.Itoa(x.s.ExtruderTemperature),
		"{print_speed}": strconv.Itoa(60 * x.speed[0]), "{layer_count}": strconv.Itoa(layers)} {
		t = strings.Join(strings.Split(t, k), v)
	}
	return t
}

// cutTemplate removes the template (with any date in place of {datetime}) from the start of a text.
func cutTemplate(text, tmpl string) (rest string, why string) {
	parts := strings.Split(tmpl, "{datetime}")
	for i, p := range parts {
		if i > 0 {
			ok := false
			for n := 10; n < 40 && n <= len(text); n++ {
				if _, err := time.Parse(time.RFC822, text[:n]); err == nil {
					text, ok = text[n:], true
					break
				}
			}
			if !ok {
				return "", fmt.Sprintf("no date at %.60q", text)
			}
		}
		if !strings.HasPrefix(text, p) {
			return "", firstDiff(text[:min(len(text), len(p))], p)
		}
		text = text[len(p):]
	}
	return text, ""
}

func c12(c *run.Case) {
	r := c.R
	if c.I%3 == 2 { // programs of layers and bed commands
		g := randPlan(r)
		checkMarkers(c, gcodeText(&g), g.LayerCount(), "generated program")
		c.Event("generated programs", 1)
		c.Distinct("%v", g)
		return
	}
	m := placed(r, -1, 0).Round32()
	lo, hi := m.Bounds()
	n := 1 + 15*r.Float64()
	if len(m.F) < 100 && r.Intn(20) == 0 {
		n = 1000 + 300*r.Float64()
		m = m.Scale(geo.V3{1, 1, 400 / (hi[2] - lo[2])}).Round32()
		lo, hi = m.Bounds()
		c.Event("more than a thousand layers", 1)
	}
	H := hi[2] - lo[2]
	m = m.Translate(geo.V3{0, 0, -lo[2]}).Round32()
	x := randOptions(c, r, math.Max(0.1, H/n))
	header, footer := randTemplate(r), randTemplate(r)
	own := r.Intn(6) == 0
	if own {
		for i, n := range []string{"header", "footer"} {
			b, err := os.ReadFile(filepath.Join(os.Getenv("VRUN_REPO"), "data", n+"_template.txt"))
			must(err)
			*[]*string{&header, &footer}[i] = string(b)
		}
		c.Event("templates of the repository", 1)
	}
	d := cmdDir(c, header, footer)
	switch r.Intn(5) {
	case 0, 1:
		x.mode = "3axes"
	case 2: // by planes
		n := 1 + r.Intn(3)
		var lines []string
		for i := 0; i < n; i++ {
			z := lo[2] - lo[2] + x.o[2] + H*float64(i+1)/float64(n+1)
			cx, cy := (lo[0]+hi[0])/2+x.o[0], (lo[1]+hi[1])/2+x.o[1]
			lines = append(lines, fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%.3f", cx, cy, z, r.Intn(2) == 0, 360*r.Float64()-180))
		}
		s := strings.Join(lines, "\n") + "\n"
		if r.Intn(2) == 0 {
			x.s.PlanesFile = filepath.Join(d, "other.txt")
			x.args = append(x.args, "--planes_file="+x.s.PlanesFile)
			must(os.WriteFile(x.s.PlanesFile, []byte(s), 0644))
		} else {
			must(os.WriteFile(filepath.Join(d, "planes_file.txt"), []byte(s), 0644))
		}
		c.Event("several parts", 1)
	case 3:
		x.mode = "5axes_by_profile"
	case 4:
		x.mode = run.Pick(r, "5axes", "vip")
	}
	if x.mode != "vip" || r.Intn(2) == 0 {
		x.args = append(x.args, "--slicing_type="+x.mode)
	}
	if x.o.Len() > 0 {
		c.Event("moved models", 1)
	}
	f := filepath.Join(d, "in.stl")
	must(os.WriteFile(f, stlBytes(m.Tris()), 0644))
	out := filepath.Join(d, "r.gcode")
	args := append([]string{"--stl=" + f, "--gcode=" + out}, x.args...)
	res := command(c, d, "", "goosli", args...)
	c.Check(res.code == 0, "goosli %v failed: %s", args, res.text)
	b, err := os.ReadFile(out)
	c.Check(err == nil, "goosli wrote nothing: %v", err)
	text := string(b)
	c.Event("commands", 1)
	c.Distinct("%v %v %v", m.V, x.args, header)
	c.Sample("%s, %s", m.Name, strings.Join(x.args, " "))

	layers := strings.Count(text, ";LAYER:")
	if own { // the comment LAYER_COUNT of the template has another name
		layers = strings.Count(text, "\n;LAYER:")
	}
	body, why := cutTemplate(text, x.expand(header, layers))
	c.Check(why == "", "goosli %v: the header is not the template with the values of this run (%d layers): %s", x.args, layers, why)
	foot := x.expand(footer, layers)
	// the footer is at the end; its length is known up to the date
	end := -1
	first := foot
	if i := strings.Index(foot, "{datetime}"); i >= 0 {
		first = foot[:i]
	}
	for at := strings.LastIndex(body, first); at >= 0; at = strings.LastIndex(body[:at], first) {
		if rest, why := cutTemplate(body[at:], foot); why == "" && rest == "" {
			end = at
			break
		}
		if at == 0 {
			break
		}
	}
	c.Check(end >= 0, "goosli %v: the g-code does not end with the footer template with the values of this run: %.300q, has to be %.300q", x.args, lastBytes(body, len(foot)+30), foot)
	body = body[:end]
	for _, t := range []string{header, footer} {
		for _, p := range placeholders {
			c.Event("placeholders filled", strings.Count(t, p))
		}
	}
	evs := checkMarkers(c, body, layers, fmt.Sprint("goosli ", x.args))

	// what the options say is what the toolpath does
	gs := x.s.GcodeSettings
	per := gs.Flow * 4 * gs.LineWidth * gs.LayerHeight / (math.Pi * gs.BarDiameter * gs.BarDiameter)
	kind := ""
	fed, length := 0.0, 0.0
	seen := map[int]bool{}
	for _, e := range evs {
		switch e.kind {
		case evText:
			if strings.HasSuffix(e.text, "_PATHES") {
				kind = e.text
			}
		case evMove:
			if e.tool != 0 || !e.hasE {
				continue
			}
			if !e.hasPos && math.Abs(e.de) < 0.0016+0.002*per {
				continue // an edge shorter than what is written
			}
			if !e.hasPos {
				if gs.Retraction {
					c.Event("retractions", 1)
					c.Check(near(math.Abs(e.de), gs.RetractionDistance, 0.0016) && e.f == float64(gs.RetractionSpeed), "goosli %v: line %d: retraction of %v at F%v", x.args, e.line, e.de, e.f)
				} else {
					c.Check(false, "goosli %v: line %d: the filament is moved by %v with retraction off", x.args, e.line, e.de)
				}
				continue
			}
			l := e.from.Dist(e.to)
			fed += e.de
			length += l
			want := gs.PrintSpeedWall
			if kind == "FILL_PATHES" {
				want = gs.PrintSpeed
			}
			if e.layer == 0 {
				want = gs.PrintSpeedLayer1
			}
			c.Check(e.f == float64(want), "goosli %v: line %d: %s of layer %d is printed at F%v, has to be F%d", x.args, e.line, kind, e.layer, e.f, want)
			fan := e.layer != 0 || !gs.FanOffLayer1
			c.Check(e.fan == fan, "goosli %v: line %d: fan is %v in layer %d", x.args, e.line, e.fan, e.layer)
			if e.layer == 0 && gs.FanOffLayer1 && !seen[0] {
				c.Event("fan off in the first layer", 1)
			}
			seen[e.layer] = true
			c.Event("speeds compared", 1)
		}
	}
	if length > 1 {
		tol := 0.01*per*length + 0.01
		c.Check(near(fed, per*length, tol), "goosli %v: %v of filament for %v of path, has to be %v", x.args, fed, length, per*length)
		c.Event("feeds compared", 1)
	}
	if x.mode == "3axes" && !x.s.SupportsOn {
		n := int(math.Ceil(H / x.s.LayerHeight))
		if math.Abs(H/x.s.LayerHeight-math.Round(H/x.s.LayerHeight)) > 1e-6 {
			c.Check(layers <= n && layers >= n-2, "goosli %v: %d layers, the model is %v high", x.args, layers, H)
		}
		l0, l1 := m.Bounds()
		for _, e := range evs {
			if e.kind != evMove || !e.hasE || !e.hasPos || e.de <= 0 || e.layer < 0 {
				continue
			}
			q := e.to.Sub(x.o)
			k := (q[2]-l0[2])*float64(n)/H - 0.5
			c.Check(near(k, math.Round(k), 0.001*float64(n)/H+1e-6) && int(math.Round(k))-e.layer >= 0 && int(math.Round(k))-e.layer <= 1, "goosli %v: line %d: layer %d is at height %v, the model is from %v to %v", x.args, e.line, e.layer, e.to[2], l0[2]+x.o[2], l1[2]+x.o[2])
			c.Check(q[0] > l0[0]-0.002 && q[0] < l1[0]+0.002 && q[1] > l0[1]-0.002 && q[1] < l1[1]+0.002, "goosli %v: line %d: %v is outside of the model moved by %v", x.args, e.line, e.to, x.o)
			c.Event("heights compared", 1)
		}
	}
	// the same settings through the packages give the same toolpath
	if x.mode == "5axes" && len(m.F) > 2500 {
		return // simplified by a library that depends on the order of maps: see C05
	}
	mesh, err := LoadSTL(f)
	must(err)
	mesh.Shift(vec(x.o))
	s := x.s
	if !filepath.IsAbs(s.PlanesFile) {
		s.PlanesFile = filepath.Join(d, s.PlanesFile)
	}
	var g gcode.Gcode
	switch x.mode {
	case "3axes":
		g = slicers.SliceByVectorToGcode(mesh, AxisZ, s)
	case "vip":
		g = vip.Slice(mesh, s)
	case "5axes":
		g = slicers.Slice5Axes(mesh, s)
	default:
		g = slicers.SliceByProfile(mesh, s)
	}
	want := gcodeText(&g)
	c.Check(body == want, "goosli %v: the g-code is not that of these settings: %s", x.args, firstDiff(body, want))
}

func lastBytes(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// checkMarkers: layers are numbered 0,1,2...
func checkMarkers(c *run.Case, text string, count int, what string) []event {
	evs, err := replay(text)
	c.Check(err == nil, "%s: %v", what, err)
	k := 0
	for _, e := range evs {
		if e.kind == evLayer {
			c.Check(e.layer == k, "%s: layer %d is marked %d (line %d)", what, k, e.layer, e.line)
			k++
		}
		if e.kind == evMove && e.hasE && e.hasPos && e.tool == 0 {
			c.Check(e.layer == k-1, "%s: printing before the first marker, line %d", what, e.line)
		}
	}
	c.Check(k == count, "%s: %d layers are marked, the layer count is %d", what, k, count)
	c.Event("layer markers", k)
	return evs
}
