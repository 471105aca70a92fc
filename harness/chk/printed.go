//go:build !only || C27

package chk

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"verif/geo"
	"verif/run"
)

func init() {
	run.Register(&run.Property{ID: "C27", Level: "exploration", Quick: 1500, Full: 40000, Min: 900, External: true,
		Must: []string{"files printed", "points of plastic inside", "points of the model covered", "points of the surface covered", "files in 3 axes", "files by planes", "files with changed poses", "files of a cut model", "files of a model after the simplifier", "files with planes of the analyzer", "files without infill"},
		Rule: "a case is a solid, sometimes cut by goosli_cutter, copied by goosli_simplifier or given planes by goosli_analyzer, that goosli slices with random options; distinct by solid and options",
		Run:  c27})
}

type plastic struct {
	a, b  geo.V3 // in the model
	z     float64
	layer int
	pose  poseOf
}

// boxes finds near segments.
type boxes struct {
	size float64
	m    map[[3]int][]int
	s    []geo.Seg
}

func newBoxes(s []geo.Seg, size float64) *boxes {
	b := &boxes{size: size, m: map[[3]int][]int{}, s: s}
	for i, e := range s {
		n := 1 + int(e.A.Dist(e.B)/size*2)
		last := [3]int{1 << 30, 0, 0}
		for k := 0; k <= n; k++ {
			c := b.cell(e.A.Lerp(e.B, float64(k)/float64(n)))
			if c != last {
				b.m[c] = append(b.m[c], i)
				last = c
			}
		}
	}
	return b
}

func (b *boxes) cell(p geo.V3) (c [3]int) {
	for k := range c {
		c[k] = int(math.Floor(p[k] / b.size))
	}
	return
}

// within is true if a segment is at the point up to d, which is less than the size of a box.
func (b *boxes) within(p geo.V3, d float64) bool {
	c := b.cell(p)
	for x := -1; x <= 1; x++ {
		for y := -1; y <= 1; y++ {
			for z := -1; z <= 1; z++ {
				for _, i := range b.m[[3]int{c[0] + x, c[1] + y, c[2] + z}] {
					if geo.SegDist(p, b.s[i].A, b.s[i].B) <= d {
						return true
					}
				}
			}
		}
	}
	return false
}

// without removes options.
func without(args []string, names ...string) (out []string) {
	for _, a := range args {
		keep := true
		for _, n := range names {
			keep = keep && a != "--"+n && !strings.HasPrefix(a, "--"+n+"=")
		}
		if keep {
			out = append(out, a)
		}
	}
	return
}

func c27(c *run.Case) {
	r := c.R
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	m := placed(r, -1, 0)
	mode := run.Pick(r, "3axes", "3axes", "3axes", "far", "far", "planes", "planes", "analyzer", "vip", "5axes", "5axes_by_profile")
	simple := mode == "3axes" || mode == "far"
	walls := mode == "far" && r.Intn(2) == 0
	if walls { // several of them only for sections that are the same everywhere
		m = geo.Loft("upright prism", geo.RegularPoly(3+r.Intn(6), u(8, 14), r.Float64()), []float64{0, u(5, 12)}, geo.Ident2)
	} else if !simple {
		for !convex(m) {
			m = placed(r, -1, 0)
		}
	}
	m = m.Round32()
	lo, hi := m.Bounds()
	m = m.Translate(geo.V3{0, 0, -lo[2]}).Round32()
	lo, hi = m.Bounds()
	H := hi[2] - lo[2]
	x := randOptions(c, r, math.Max(0.1, H/u(4, 15)))
	lw := x.s.GcodeSettings.LineWidth
	if x.s.SupportsOn {
		x.s.SupportsOn = false
		x.args = without(x.args, "supports_on")
	}
	if !walls { // inner walls of sharp corners are not parallel to the contour
		x.s.WallThickness = lw
		x.args = append(without(x.args, "wall_thickness"), "--wall_thickness="+fdot15(lw))
	}
	d := cmdDir(c, "", "")
	in := filepath.Join(d, "in.stl")
	must(os.WriteFile(in, stlBytes(m.Tris()), 0644))
	what := fmt.Sprintf("%s of %s", mode, m.Name)
	ts := m.Translate(x.o).Tris()
	cutN, cutD, cut := geo.V3{}, 0.0, false
	tool := func(name string, args ...string) {
		res := command(c, d, "", name, args...)
		c.Check(res.code == 0, "%s %v failed: %s", name, args, res.text)
	}
	switch k := r.Intn(6); {
	case k == 0 && convex(m) && !walls: // a part of it
		n := geo.RandomDir(r)
		if r.Intn(2) == 0 {
			n = run.Pick(r, geo.V3{0, 0, 1}, geo.V3{0, 0, -1}, geo.V3{0, 0, -1}, geo.V3{0, 0, 3}, geo.V3{1, 0, 0}, geo.V3{-1, 0, 0}, geo.V3{0, 1, 0}, geo.V3{0, -2, 0})
		}
		for k := range n {
			n[k] = math.Round(n[k]*1000) / 1000
		}
		p := lo.Add(hi).Mul(0.5)
		for k := range p {
			p[k] = math.Round(1000*(p[k]+(hi[k]-lo[k])*u(-0.2, 0.2))) / 1000
		}
		up, down := filepath.Join(d, "up.stl"), filepath.Join(d, "down.stl")
		tool("goosli_cutter", "-s", in, "-o", up, "-u", down, "--pointx="+fdot15(p[0]), "--pointy="+fdot15(p[1]), "--pointz="+fdot15(p[2]), "--normali="+fdot15(n[0]), "--normalj="+fdot15(n[1]), "--normalk="+fdot15(n[2]))
		in = up
		if r.Intn(2) == 0 {
			in, n = down, n.Mul(-1)
		}
		n = n.Unit()
		cut, cutN, cutD = true, n, n.Dot(p.Add(x.o))
		ts = nil
		for _, t := range m.Translate(x.o).Tris() {
			ts = append(ts, geo.ClipTri(t, n, cutD)...)
		}
		if len(ts) == 0 {
			c.Skip("nothing is left after the cut")
		}
		what += fmt.Sprintf(", cut by the plane through %v with the normal %v", p, n)
		c.Event("files of a cut model", 1)
	case k == 1:
		out := filepath.Join(d, "same.stl")
		tool("goosli_simplifier", "-s", in, "-o", out, "-t", "1000000")
		in = out
		what += ", through goosli_simplifier"
		c.Event("files of a model after the simplifier", 1)
	}
	z0, z1 := math.Inf(1), math.Inf(-1)
	for _, t := range ts {
		for _, p := range t {
			z0, z1 = math.Min(z0, p[2]), math.Max(z1, p[2])
		}
	}
	planes := filepath.Join(d, "planes_file.txt")
	text := ""
	cli := "vip"
	switch mode {
	case "far":
		text = fmt.Sprintf("X0 Y0 Z%d Tfalse R0\n", 1000+int(H))
		c.Event("files by planes", 1)
	case "planes":
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			text += fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%.3f\n", (lo[0]+hi[0])/2+x.o[0], (lo[1]+hi[1])/2+x.o[1], z0+(z1-z0)*float64(i+1)/float64(n+1), r.Intn(2) == 0, 360*r.Float64()-180)
		}
	case "3axes", "5axes", "5axes_by_profile":
		cli = mode
	}
	must(os.WriteFile(planes, []byte(text), 0644))
	if mode == "analyzer" {
		args := []string{"-s", in, "-o", planes}
		for i, k := range "xyz" {
			if x.o[i] != 0 {
				args = append(args, "--origin"+string(k)+"="+fdot15(x.o[i]))
			}
		}
		tool("goosli_analyzer", args...)
		b, err := os.ReadFile(planes)
		c.Check(err == nil, "goosli_analyzer wrote nothing: %v", err)
		text = string(b)
		c.Event("files with planes of the analyzer", 1)
	}
	out := filepath.Join(d, "r.gcode")
	args := append(append([]string{"--stl=" + in, "--gcode=" + out, "--slicing_type=" + cli}, x.args...), "--planes_file="+planes)
	res := command(c, d, run.Pick(r, "", "", "0", "0-2"), "goosli", args...)
	what += fmt.Sprintf(", goosli %v, planes %q", args[2:], text)
	c.Distinct("%v %v", ts, args)
	c.Sample("%s", what)
	c.Check(res.code == 0, "%s: failed: %s", what, res.text)
	b, err := os.ReadFile(out)
	c.Check(err == nil, "%s: goosli wrote nothing: %v", what, err)
	if os.Getenv("VRUN_DUMP") != "" {
		os.WriteFile("/tmp/c27.gcode", b, 0644)
		os.WriteFile("/tmp/c27.stl", stlBytes(ts), 0644)
	}
	evs, err := replay(string(b))
	c.Check(err == nil, "%s: %v", what, err)

	// what is deposited, in the model
	centre := geo.V3{}
	if text != "" {
		centre = v3(x.s.RotationCenter)
	}
	pose := poseOf{}
	var ps []plastic
	changed := false
	unpose := func(q geo.V3) geo.V3 {
		t2 := pose.t2
		if text != "" {
			t2 = -t2
		}
		return turnZ(lean(q.Sub(centre), t2), -pose.t1).Add(centre)
	}
	for _, e := range evs {
		switch e.kind {
		case evBed:
			pose = poseOf{e.phys[1], e.phys[2]}
		case evG62:
			pose = poseOf{e.g62[1], e.g62[0]}
		case evMove:
			if e.de > 0 && e.hasPos && e.from != e.to {
				ps = append(ps, plastic{unpose(e.from), unpose(e.to), e.to[2], e.layer, pose})
				changed = changed || pose != poseOf{}
			}
		}
	}
	if len(ps) == 0 && strings.Contains(m.Name, "large") { // bodies between layers
		c.Skip("no layer goes through a body")
	}
	c.Check(len(ps) > 0, "%s: nothing is printed", what)
	c.Event("files printed", 1)
	if changed {
		c.Event("files with changed poses", 1)
	}
	if mode == "3axes" {
		c.Event("files in 3 axes", 1)
	}
	skirt := text != "" || cli == "vip"
	skirt = skirt && x.s.SkirtLineCount > 0

	// it is inside of the model
	isConvex := convex(m)
	inside := func(p geo.V3, tol float64) bool {
		if cut && p.Dot(cutN)-cutD < -tol {
			return false
		}
		full := ts
		if cut {
			full = m.Translate(x.o).Tris()
		}
		if isConvex {
			for _, t := range full {
				n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
				if l := n.Len(); l > 1e-9 && p.Sub(t[0]).Dot(n) > tol*l {
					return false
				}
			}
			return true
		}
		return math.Abs(windingNumber(full, p)) > 0.5 || surfDist(full, p) <= tol
	}
	far := 0.0 // bed angles are rounded in the file
	for _, q := range ts {
		far = math.Max(far, q[0].Sub(centre).Len())
	}
	tol := 0.01 + 2e-5*far
	step := 1 + len(ps)*len(ts)/400000
	for i := r.Intn(step); i < len(ps); i += step {
		p := ps[i]
		if skirt && p.layer == 0 {
			continue
		}
		for _, k := range []float64{0, 0.5, r.Float64()} {
			q := p.a.Lerp(p.b, k)
			c.Check(inside(q, tol), "%s: plastic at %v of layer %d (turned by %v, inclined by %v) is outside of the model", what, q, p.layer, p.pose.t1, p.pose.t2)
			c.Event("points of plastic inside", 1)
		}
	}

	// the model is covered
	k, fill := 1.0, 0.0
	switch x.s.FillingType {
	case "Squares":
		k = 2
	case "Triangles":
		k = 3
	}
	if x.s.FillDensity > 0 && !strings.HasPrefix(mode, "5axes") { // they print walls only
		fill = math.Max(k*lw*100/float64(x.s.FillDensity)/2, lw)
		fill += math.Max(0, x.s.WallThickness) + 0.02
	} else {
		c.Event("files without infill", 1)
	}
	t := x.s.LayerHeight
	if simple {
		coverLayers(c, r, what, ts, inside, ps, x, fill, z0, z1)
		return
	}
	if fill == 0 || fill > 10 {
		return
	}
	reach := math.Hypot(fill, t) + t
	var segs []geo.Seg
	for _, p := range ps {
		segs = append(segs, geo.Seg{A: p.a, B: p.b})
	}
	near := newBoxes(segs, reach)
	for i := 0; i < 60; i++ {
		q := geo.V3{lo[0] + x.o[0] + (hi[0]-lo[0])*r.Float64(), lo[1] + x.o[1] + (hi[1]-lo[1])*r.Float64(), z0 + (z1-z0)*r.Float64()}
		if !inside(q, -0.01) {
			continue
		}
		if !near.within(q, reach) {
			best, at := math.Inf(1), -1
			for i, e := range segs {
				if d := geo.SegDist(q, e.A, e.B); d < best {
					best, at = d, i
				}
			}
			c.Check(best <= reach, "%s: the plastic next to the point %v inside of the model is at a distance of %.4g, in layer %d turned by %v and inclined by %v, but expected within %.4g", what, q, best, ps[at].layer, ps[at].pose.t1, ps[at].pose.t2, reach)
		}
		c.Event("points of the model covered", 1)
	}
}

// coverLayers looks for plastic in sections of a model that was printed upright.
func coverLayers(c *run.Case, r *rand.Rand, what string, ts [][3]geo.V3, inside func(geo.V3, float64) bool, ps []plastic, x cliOptions, fill, z0, z1 float64) {
	t := x.s.LayerHeight
	byZ := map[float64][]geo.Seg{}
	var zs []float64
	for _, p := range ps {
		if byZ[p.z] == nil {
			zs = append(zs, p.z)
		}
		byZ[p.z] = append(byZ[p.z], geo.Seg{A: p.a, B: p.b})
	}
	dz := (z1 - z0) / math.Ceil((z1-z0)/t-1e-9)
	last := z0 - dz/2
	gap := func(z float64) {
		if n := int(math.Round((z - last) / dz)); n > 1 { // separate bodies have gaps
			for k := 1; k < n; k++ {
				q := last + dz*float64(k)
				c.Check(geo.TotalLen(geo.Section(ts, geo.V3{0, 0, 1}, q-0.002*float64(n))) < 0.1 || geo.TotalLen(geo.Section(ts, geo.V3{0, 0, 1}, q+0.002*float64(n))) < 0.1, "%s: there is no layer at %v, only at %v and %v", what, q, last, z)
			}
		} else {
			c.Check(z-last <= t*(1+1e-6)+0.002, "%s: there is no layer between %v and %v", what, last, z)
		}
	}
	var verts []float64
	for _, q := range ts {
		for _, p := range q {
			verts = append(verts, p[2])
		}
	}
	for i, z := range zs {
		c.Check(z > last, "%s: a layer at %v is printed after one at %v", what, z, last)
		gap(z)
		last = z
		if i%3 != 0 && len(zs) > 12 {
			continue
		}
		close := false
		for _, v := range verts {
			close = close || math.Abs(v-z) < 2e-3
		}
		if close { // the height is rounded in the file
			continue
		}
		sec := geo.Section(ts, geo.V3{0, 0, 1}, z)
		var around [2]*boxes // the height is rounded in the file, a flat slope is somewhere else then
		for k := range around {
			around[k] = newBoxes(geo.Section(ts, geo.V3{0, 0, 1}, z+0.001*float64(2*k-1)), 1)
		}
		near := newBoxes(byZ[z], math.Max(fill, 0.1)+0.1)
		for k := 0; k < 10 && len(sec) > 0; k++ {
			e := sec[r.Intn(len(sec))]
			q := e.A.Lerp(e.B, r.Float64())
			if e.A.Dist(e.B) < 0.05 || !around[0].within(q, 0.01) || !around[1].within(q, 0.01) {
				continue
			}
			c.Check(near.within(q, 0.02), "%s: there is no plastic at the point %v of the surface", what, q)
			c.Event("points of the surface covered", 1)
		}
		if fill == 0 {
			continue
		}
		lo, hi := geo.V3{1e9, 1e9}, geo.V3{-1e9, -1e9}
		for _, e := range sec {
			for k := 0; k < 2; k++ {
				lo[k], hi[k] = math.Min(lo[k], e.A[k]), math.Max(hi[k], e.A[k])
			}
		}
		for k := 0; k < 10 && len(sec) > 0; k++ {
			q := geo.V3{lo[0] + (hi[0]-lo[0])*r.Float64(), lo[1] + (hi[1]-lo[1])*r.Float64(), z}
			if !inside(q, -0.01) {
				continue
			}
			c.Check(near.within(q, fill), "%s: there is no plastic within %.4g of the point %v of a section", what, fill, q)
			c.Event("points of the model covered", 1)
		}
	}
	gap(z1 + dz/2)
}
