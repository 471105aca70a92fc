//go:build !only || C05

package chk

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
)

func init() {
	run.Register(&run.Property{ID: "C05", Level: "exploration", Quick: 500, Full: 20000, Min: 350, CPU: 300, Workers: 4,
		Must: []string{"operations that ran together", "slicings", "g-codes", "cuts", "rotations", "colourings", "loads", "copies", "simplifications", "results compared", "commands", "distinct orders of completion", "looks for goroutines left"},
		Rule: "a case is a mesh, settings and a list of operations (slicing in all modes, cutting, rotating, colouring, filtering, copying, simplifying, analysing, loading, saving), executed alone and then several times at once on the same mesh with the race detector on, other GOMAXPROCS and noise; every 12th case runs goosli on other CPU sets; distinct by mesh, operations and the order in which they ended",
		Run:  c05, Assumptions: []string{"the race detector sees the races of executed schedules only", "number of workers inside slicing is the number of CPUs of the process: varied for commands only"}})
}

func dumpMesh(m *Mesh) string {
	if m == nil {
		return "nil"
	}
	return fmt.Sprintf("%x", m.Triangles)
}

func gtext(g gcode.Gcode) string {
	var b bytes.Buffer
	g.ToOutput(&b)
	return b.String()
}

type operation struct {
	name string
	do   func() string
}

func randSettings(r *rand.Rand, h float64) slicers.Settings {
	s := stdSettings(r, h)
	s.FillingType = run.Pick(r, "Lines", "Squares", "Triangles")
	s.FillDensity = run.Pick(r, 10, 20, 50)
	s.WallThickness = run.Pick(r, 0.4, 0.8, 1.2)
	s.SkirtLineCount = r.Intn(3)
	s.TopLayers, s.BottomLayers = r.Intn(4), r.Intn(4)
	s.GcodeSettings.Retraction = r.Intn(2) == 0
	s.GcodeSettings.RetractionDistance = 2
	s.GcodeSettings.RetractionSpeed = 900
	s.GcodeSettings.LineWidth = 0.4 + r.Float64()
	s.GcodeSettings.FanOffLayer1 = r.Intn(2) == 0
	s.Epsilon = 0.5 + 5*r.Float64()
	return s
}

func c05(c *run.Case) {
	if c.I%12 == 0 {
		c05cmd(c)
		return
	}
	// goroutines inherit the label
	label := "case" + itoa(c.I)
	pprof.Do(context.Background(), pprof.Labels("of", label), func(context.Context) { c05ops(c, label) })
}

// left counts goroutines with the label that are in the code of goosli.
func left(label string) (n int, where string) {
	var b bytes.Buffer
	pprof.Lookup("goroutine").WriteTo(&b, 1)
	for _, e := range strings.Split(b.String(), "\n\n") {
		if !strings.Contains(e, `"`+label+`"`) || strings.Contains(e, "verif/chk.left") || !strings.Contains(e, "l1va/goosli/") {
			continue
		}
		k := 0
		for _, l := range strings.Split(e, "\n") {
			if strings.Contains(l, " @ 0x") {
				fmt.Sscanf(l, "%d @", &k)
			} else if strings.Contains(l, "l1va/goosli/") {
				where = strings.TrimSpace(strings.TrimLeft(l, "#"))
			}
		}
		n += k
	}
	return
}

func c05ops(c *run.Case, label string) {
	if c.I == 1 {
		c05simplified(c)
		return
	}
	r := c.R
	m := placed(r, -1, run.Pick(r, 0., 50))
	for len(m.F) < 400 && r.Intn(3) > 0 {
		m = m.Subdivide()
	}
	mesh := toMesh(m)
	before := copyMesh(mesh)
	file := filepath.Join(c.Tmp(), "m.stl")
	must(os.WriteFile(file, stlBytes(m.Tris()), 0644))
	lo, hi := m.MinMax(geo.V3{0, 0, 1})
	size := hi - lo
	type saved struct {
		s slicers.Settings
		g gcode.GcodeSettings
	}
	var kept []saved
	var all []*slicers.Settings
	newSettings := func(h float64) slicers.Settings {
		s := randSettings(r, h)
		kept = append(kept, saved{s, *s.GcodeSettings})
		all = append(all, &s)
		return s
	}
	var ops []operation
	n := 5 + r.Intn(4)
	for i := 0; i < n; i++ {
		d := randDir(r)
		h := size / (2 + 10*r.Float64())
		k := cutPlane{m.V[r.Intn(len(m.V))], geo.RandomDir(r)}
		deg := r.Float64() * 360
		out := filepath.Join(c.Tmp(), fmt.Sprintf("out%d.stl", i))
		s := newSettings(h)
		switch r.Intn(12) {
		case 0, 1, 2, 3:
			lo, hi := m.MinMax(d)
			s.LayerHeight = (hi - lo) / (2 + 40*r.Float64())
			kept[len(kept)-1].s = s
			ops = append(ops, operation{"slicings", func() string { return dumpLayers(slicers.SliceByVector(mesh, vec(d), s)) }})
		case 4:
			ops = append(ops, operation{"g-codes", func() string { return gtext(slicers.SliceByVectorToGcode(mesh, vec(d), s)) }})
		case 5:
			ops = append(ops, operation{"g-codes", func() string { return gtext(vip.Slice(mesh, s)) }})
		case 6:
			ops = append(ops, operation{"cuts", func() string {
				a, b, err := helpers.CutMesh(mesh, k.plane())
				return dumpMesh(a) + dumpMesh(b) + fmt.Sprint(err)
			}})
		case 7:
			ops = append(ops, operation{"rotations", func() string { return dumpMesh(mesh.Rotate(RotationAroundZ(deg), pt(k.p))) }})
		case 8:
			ops = append(ops, operation{"colourings", func() string {
				return fmt.Sprint(helpers.ColorizeTriangles(*mesh, 30, vec(d)), helpers.FilterTrianglesByColor(*mesh, 30, vec(d)))
			}})
		case 9:
			ops = append(ops, operation{"loads", func() string {
				m, err := LoadSTL(file)
				return dumpMesh(m) + fmt.Sprint(err)
			}})
		case 10:
			ops = append(ops, operation{"copies", func() string {
				x := NewMesh(mesh.CopyTriangles())
				err := SaveSTL(out, &x)
				b, _ := os.ReadFile(out)
				return dumpMesh(&x) + fmt.Sprint(err) + string(b)
			}})
		default:
			ops = append(ops, operation{"simplifications", func() string {
				x, err := helpers.SimplifyMesh(mesh, len(m.F)*2)
				a, b := mesh.MinMaxZ(vec(d))
				return dumpMesh(x) + fmt.Sprint(err, a, b, vip.Analyze(mesh, 30))
			}})
		}
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	want := make([]string, n)
	for i, o := range ops {
		want[i] = o.do()
		c.Event(o.name, 1)
		c.Check(sameMesh(mesh, before), "the mesh is modified by one of %s", o.name)
	}
	for i, k := range kept {
		c.Check(*all[i].GcodeSettings == k.g && k.s.GcodeSettings == all[i].GcodeSettings, "settings are modified: %+v, were %+v", *all[i].GcodeSettings, k.g)
	}
	rounds := 2
	order := ""
	for round := 0; round < rounds; round++ {
		procs := run.Pick(r, 1, 2, 3, 4, 8)
		runtime.GOMAXPROCS(procs)
		stop := make(chan struct{})
		var noise sync.WaitGroup
		for i, k := 0, r.Intn(4); i < k; i++ {
			noise.Add(1)
			go func(i int) {
				defer noise.Done()
				for x := 0; ; x++ {
					select {
					case <-stop:
						return
					default:
						if x%(1000*(i+1)) == 0 {
							runtime.Gosched()
						}
						if i == 3 && x%200000 == 0 {
							runtime.GC()
						}
					}
				}
			}(i)
		}
		got := make([]string, 2*n)
		var running, together atomic.Int32
		var mu sync.Mutex
		var ended []int
		var wg sync.WaitGroup
		begin := make(chan struct{})
		ids := r.Perm(2 * n)
		for _, i := range ids {
			if ops[i%n].name == "copies" && i >= n { // it writes a file of its own
				got[i] = want[i%n]
				continue
			}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-begin
				if running.Add(1) > 1 {
					together.Add(1)
				}
				got[i] = ops[i%n].do()
				running.Add(-1)
				mu.Lock()
				ended = append(ended, i)
				mu.Unlock()
			}(i)
		}
		close(begin)
		wg.Wait()
		close(stop)
		noise.Wait()
		for i, g := range got {
			c.Check(g == want[i%n], "%s running with other operations (GOMAXPROCS %d) give another result: %s", ops[i%n].name, procs, firstDiff(g, want[i%n]))
			c.Event("results compared", 1)
		}
		c.Event("operations that ran together", int(together.Load()))
		order += fmt.Sprint(ended)
	}
	c.Event("distinct orders of completion", 1)
	c.Check(sameMesh(mesh, before), "the mesh is modified")
	for i, k := range kept {
		c.Check(*all[i].GcodeSettings == k.g, "settings are modified: %+v, were %+v", *all[i].GcodeSettings, k.g)
	}
	countLarge(c, m)
	c.Distinct("%v %v", m.V, order)
	// nothing goes on when all calls have returned (a pool of workers would be right)
	for i := 0; i < 6; i++ {
		slicers.SliceByVector(mesh, AxisZ, stdSettings(r, size/3))
	}
	var k int
	var where string
	for i := 0; i < 60; i++ {
		if k, where = left(label); k <= 4*runtime.NumCPU() {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	c.Check(k <= 4*runtime.NumCPU(), "%d goroutines of slicings that have ended are still there, in %s", k, where)
	c.Event("looks for goroutines left", 1)
}

func c05cmd(c *run.Case) {
	r := c.R
	m := placed(r, -1, 0).Round32()
	for len(m.F) < 300 {
		m = m.Subdivide()
	}
	d := cmdDir(c, "start\n", "end\n")
	f := filepath.Join(d, "in.stl")
	must(os.WriteFile(f, stlBytes(m.Tris()), 0644))
	mode := run.Pick(r, "3axes", "vip", "5axes", "5axes_by_profile")
	if len(m.F) > 2500 && mode == "5axes" { // see c05simplified
		mode = "vip"
	}
	var want string
	sets := []string{"0", "0-1", "3-5", "0-3", "0-7"}
	for i, cpus := range sets {
		o := filepath.Join(d, fmt.Sprintf("out%d.gcode", i))
		res := command(c, d, cpus, "goosli", "--stl", f, "--gcode", o, "--slicing_type", mode, "--layer_height", "0.7", "--fill_density", "10")
		c.Check(res.code == 0, "goosli failed on CPUs %s: %s", cpus, res.text)
		b, err := os.ReadFile(o)
		c.Check(err == nil, "goosli wrote nothing: %v", err)
		if i == 0 {
			want = string(b)
			c.Check(strings.Count(want, "\n") > 5, "empty g-code")
		}
		c.Check(want == string(b), "g-code (%s) on CPUs %s is not the same as on CPU 0: %s", mode, cpus, firstDiff(string(b), want))
		c.Event("commands", 1)
	}
	c.Distinct("%v %v", m.V, mode)
}

// 5 axes slicing simplifies meshes of more than 2500 facets first.
func c05simplified(c *run.Case) {
	var spine []geo.V3
	for i := 0; i <= 40; i++ {
		a := float64(i) * math.Pi / 100
		spine = append(spine, geo.V3{40 - 40*math.Cos(a), 0, 40 * math.Sin(a)})
	}
	m := geo.Tube("bent", spine, func(int) float64 { return 8 }, 40)
	mesh := toMesh(m)
	s := stdSettings(c.R, 0.7)
	s.RotationCenter = Point{}
	want := gtext(slicers.Slice5Axes(mesh, s))
	c.Event("g-codes", 1)
	c.Distinct("5axes of %d facets", len(m.F))
	for i := 0; i < 8; i++ {
		if got := gtext(slicers.Slice5Axes(mesh, s)); got != want {
			c.Known("5axes-simplified", "5 axes slicing of a sphere of %d facets differs from run to run: %s", len(m.F), firstDiff(got, want))
			return
		}
	}
}
