// Package chk contains the monitors (oracles) and workloads of all properties. They use the exported API and the
// commands of goosli as a black box; everything they compare with is computed by the harness itself (package geo).
package chk

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
)

func pt(v geo.V3) Point   { return Point{X: v[0], Y: v[1], Z: v[2]} }
func vec(v geo.V3) Vector { return V(v[0], v[1], v[2]) }
func v3(p Point) geo.V3   { return geo.V3{p.X, p.Y, p.Z} }
func vv3(p Vector) geo.V3 { return geo.V3{p.X, p.Y, p.Z} }

func toMesh(m *geo.IMesh) *Mesh {
	ts := make([]Triangle, 0, len(m.F))
	for _, t := range m.Tris() {
		ts = append(ts, NewTriangle(pt(t[0]), pt(t[1]), pt(t[2])))
	}
	r := NewMesh(ts)
	return &r
}

func tris(m *Mesh) [][3]geo.V3 {
	if m == nil {
		return nil
	}
	out := make([][3]geo.V3, 0, len(m.Triangles))
	for _, t := range m.Triangles {
		out = append(out, [3]geo.V3{v3(t.P1), v3(t.P2), v3(t.P3)})
	}
	return out
}

func copyMesh(m *Mesh) *Mesh {
	r := NewMesh(append([]Triangle(nil), m.Triangles...))
	return &r
}

func sameMesh(a, b *Mesh) bool {
	if len(a.Triangles) != len(b.Triangles) {
		return false
	}
	for i := range a.Triangles {
		if a.Triangles[i] != b.Triangles[i] {
			return false
		}
	}
	return true
}

// placed draws a solid, turns it by a random pose (sometimes) and puts it somewhere.
func placed(r *rand.Rand, kind int, spread float64) *geo.IMesh {
	m := geo.RandomSolid(r, kind)
	if kind < 0 {
		m = anySolid(r, 100)
	}
	switch r.Intn(3) {
	case 0:
		m = m.Rotate(geo.RandomRot(r))
	case 1:
		m = m.Rotate(geo.AxisAngle(geo.V3{0, 0, 1}, 360*r.Float64()))
	}
	return m.Translate(geo.V3{spread * (2*r.Float64() - 1), spread * (2*r.Float64() - 1), spread * (2*r.Float64() - 1)}).Shuffle(r)
}

// gridded draws a solid whose coordinates are multiples of 0.5, so that planes can go exactly through its vertices.
func gridded(r *rand.Rand) *geo.IMesh {
	for {
		m := geo.RandomSolid(r, -1).Map(func(v geo.V3) geo.V3 {
			return geo.V3{math.Round(v[0]*2) / 2, math.Round(v[1]*2) / 2, math.Round(v[2]*2) / 2}
		})
		if m.Watertight() == nil && m.Volume() > 0.5 && !m.Folded() {
			return m.Shuffle(r)
		}
	}
}

// ---- paths

func pathSegs(ps []Path) []geo.Seg {
	var out []geo.Seg
	for _, p := range ps {
		for i := 1; i < len(p.Points); i++ {
			out = append(out, geo.Seg{A: v3(p.Points[i-1]), B: v3(p.Points[i])})
		}
	}
	return out
}

func polyPath(p []geo.V3, closed bool) Path {
	var r Path
	for _, q := range p {
		r.Points = append(r.Points, pt(q))
	}
	if closed && len(p) > 0 {
		r.Points = append(r.Points, pt(p[0]))
	}
	return r
}

func finitePath(p Path) bool {
	for _, q := range p.Points {
		if !v3(q).Finite() {
			return false
		}
	}
	return true
}

// ---- settings

func stdGcode(r *rand.Rand) *gcode.GcodeSettings {
	return &gcode.GcodeSettings{
		BarDiameter: 1.75, Flow: 1, LayerHeight: 0.5, LineWidth: 0.4,
		PrintSpeed: 3000, PrintSpeedLayer1: 1000, PrintSpeedWall: 2000,
	}
}

func stdSettings(r *rand.Rand, layerHeight float64) slicers.Settings {
	g := stdGcode(r)
	g.LayerHeight = layerHeight
	return slicers.Settings{
		GcodeSettings: g, LayerHeight: layerHeight, WallThickness: 0.4, FillDensity: 20, TopLayers: 3, BottomLayers: 3,
		Epsilon: 2, FillingType: "Lines", PlanesFile: "/nonexistent/planes_file.txt", ColorizedAngle: 30, UnitVector: AxisZ,
	}
}

func layersOf(g *gcode.Gcode) (out [][]Layer) {
	for _, c := range g.Cmds {
		if lm, ok := c.(gcode.LayersMoving); ok {
			out = append(out, lm.Layers)
		}
	}
	return
}

// ---- inside test (generalized winding number)

func windingNumber(ts [][3]geo.V3, p geo.V3) float64 {
	s := 0.0
	for _, t := range ts {
		a, b, c := t[0].Sub(p), t[1].Sub(p), t[2].Sub(p)
		la, lb, lc := a.Len(), b.Len(), c.Len()
		s += 2 * math.Atan2(a.Dot(b.Cross(c)), la*lb*lc+a.Dot(b)*lc+b.Dot(c)*la+c.Dot(a)*lb)
	}
	return s / (4 * math.Pi)
}

func triDist(p geo.V3, t [3]geo.V3) float64 {
	n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
	if l := n.Len(); l > 0 {
		n = n.Mul(1 / l)
		d := p.Sub(t[0]).Dot(n)
		q := p.Sub(n.Mul(d))
		in := true
		for i := 0; i < 3; i++ {
			if t[(i+1)%3].Sub(t[i]).Cross(q.Sub(t[i])).Dot(n) < 0 {
				in = false
			}
		}
		if in {
			return math.Abs(d)
		}
	}
	d := math.Inf(1)
	for i := 0; i < 3; i++ {
		d = math.Min(d, geo.SegDist(p, t[i], t[(i+1)%3]))
	}
	return d
}

func surfDist(ts [][3]geo.V3, p geo.V3) float64 {
	d := math.Inf(1)
	for _, t := range ts {
		d = math.Min(d, triDist(p, t))
	}
	return d
}

// ---- STL, written and read by the harness itself

func stlBytes(ts [][3]geo.V3) []byte {
	b := make([]byte, 84, 84+50*len(ts))
	copy(b, "harness")
	binary.LittleEndian.PutUint32(b[80:], uint32(len(ts)))
	for _, t := range ts {
		var rec [50]byte
		n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0])).Unit()
		for k := 0; k < 3; k++ {
			binary.LittleEndian.PutUint32(rec[4*k:], math.Float32bits(float32(n[k])))
			for v := 0; v < 3; v++ {
				binary.LittleEndian.PutUint32(rec[12+12*v+4*k:], math.Float32bits(float32(t[v][k])))
			}
		}
		b = append(b, rec[:]...)
	}
	return b
}

func parseSTL(b []byte) ([][3]geo.V3, error) {
	if len(b) < 84 {
		return nil, fmt.Errorf("file has only %d bytes", len(b))
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if len(b) != 84+50*n {
		return nil, fmt.Errorf("header says %d facets, file has %d bytes instead of %d", n, len(b), 84+50*n)
	}
	out := make([][3]geo.V3, n)
	for i := range out {
		for v := 0; v < 3; v++ {
			for k := 0; k < 3; k++ {
				out[i][v][k] = float64(math.Float32frombits(binary.LittleEndian.Uint32(b[84+50*i+12+12*v+4*k:])))
			}
		}
	}
	return out, nil
}

func round32(ts [][3]geo.V3) [][3]geo.V3 {
	out := make([][3]geo.V3, len(ts))
	for i, t := range ts {
		for v := 0; v < 3; v++ {
			for k := 0; k < 3; k++ {
				out[i][v][k] = float64(float32(t[v][k]))
			}
		}
	}
	return out
}

func writeSTL(c *run.Case, ts [][3]geo.V3) string {
	f := filepath.Join(c.Tmp(), fmt.Sprintf("in%d.stl", c.R.Int63()))
	must(os.WriteFile(f, stlBytes(ts), 0644))
	return f
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// ---- commands

type cmdResult struct {
	code int // exit status, -1 if it was killed by a signal
	text string
}

// command runs a goosli binary in dir; the limit on time is only a guard against a hang of the whole check.
func command(c *run.Case, dir string, cpus string, name string, args ...string) cmdResult {
	bin := filepath.Join(os.Getenv("VRUN_BIN"), name)
	if _, err := os.Stat(bin); err != nil {
		panic("harness: " + err.Error())
	}
	argv := append([]string{bin}, args...)
	if cpus != "" {
		argv = append([]string{"taskset", "-c", cpus}, argv...)
	}
	argv = append([]string{"prlimit", "--cpu=60", "--"}, argv...)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	out := &tailBuf{}
	cmd.Stdout, cmd.Stderr = out, out
	run.Waiting.Add(1)
	defer run.Waiting.Add(-1)
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(400 * time.Second):
		cmd.Process.Kill()
		<-done
		panic("harness: command does not end: " + strings.Join(argv, " "))
	}
	return cmdResult{cmd.ProcessState.ExitCode(), string(out.b)}
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

// cmdDir makes a working directory with templates as goosli needs it.
func cmdDir(c *run.Case, header, footer string) string {
	d := c.Tmp()
	must(os.MkdirAll(filepath.Join(d, "data"), 0755))
	must(os.WriteFile(filepath.Join(d, "data", "header_template.txt"), []byte(header), 0644))
	must(os.WriteFile(filepath.Join(d, "data", "footer_template.txt"), []byte(footer), 0644))
	must(os.WriteFile(filepath.Join(d, "data", "config.yaml"), []byte("debug: false\ndebug_file: debug.txt\n"), 0644))
	return d
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol } // false for NaN

func fdot(f float64) string { return fmt.Sprintf("%.9g", f) }

func itoa(i int) string { return fmt.Sprint(i) }

func fdot15(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

// anySolid is any solid, every n-th is a large one.
func anySolid(r *rand.Rand, n int) *geo.IMesh {
	if r.Intn(n) > 0 {
		return geo.RandomSolid(r, -1)
	}
	for {
		if m := geo.Large(r); m != nil && m.Watertight() == nil && m.Volume() > 0 {
			m.Name = "large " + m.Name
			return m
		}
	}
}

func countLarge(c *run.Case, m *geo.IMesh) {
	if strings.HasPrefix(m.Name, "large") {
		c.Event("large models", 1)
	}
}

func randCentre(r *rand.Rand) Point {
	if r.Intn(2) == 0 {
		return OriginPoint
	}
	return Point{X: 40*r.Float64() - 20, Y: 40*r.Float64() - 20, Z: 40*r.Float64() - 20}
}
