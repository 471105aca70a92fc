//go:build !only || C21

package chk

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verif/geo"
	"verif/run"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
)

func init() {
	run.Register(&run.Property{ID: "C21", Level: "exploration", Quick: 6000, Full: 150000, Min: 3000,
		Must: []string{"suggestions judged", "tilted suggestions", "horizontal suggestions", "models without overhangs", "models with overhangs", "planes read back", "commands", "random planes read back", "analyses that ended before the limit", "models turned"},
		Rule: "a case is a solid (leaning, bent, flaring, on legs, rotated), an angle, and every plane suggested for it; every 50th through the goosli_analyzer command, every 10th is a line of a planes file; distinct by model and angle or by line",
		Run:  c21, Assumptions: []string{"overhanging facets within 1e-4 of the limits of angle and height may count or not", "cut surfaces of earlier planes may count or not"}})
}

// readSuggestion takes a line of a planes file apart.
func readSuggestion(c *run.Case, line string) (p geo.V3, tilted bool, rotz float64) {
	w := strings.Fields(line)
	c.Check(len(w) == 5, "line %q of a planes file has %d words", line, len(w))
	for i, l := range "XYZ" {
		x, err := strconv.ParseFloat(strings.TrimPrefix(w[i], string(l)), 64)
		c.Check(err == nil && w[i][0] == byte(l), "line %q of a planes file: word %q", line, w[i])
		p[i] = x
	}
	c.Check(w[3] == "Ttrue" || w[3] == "Tfalse", "line %q of a planes file: word %q", line, w[3])
	x, err := strconv.ParseFloat(strings.TrimPrefix(w[4], "R"), 64)
	c.Check(err == nil && w[4][0] == 'R', "line %q of a planes file: word %q", line, w[4])
	return p, w[3] == "Ttrue", x
}

func c21(c *run.Case) {
	r := c.R
	if c.I%10 == 9 {
		// every line that a user may write
		p := geo.V3{200 * (r.Float64() - 0.5), 200 * (r.Float64() - 0.5), 100 * r.Float64()}
		tilted := r.Intn(2) == 0
		rotz := run.Pick(r, 0, 90, -90, 180, 720*(r.Float64()-0.5), 360*r.Float64())
		line := fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%.3f", p[0], p[1], p[2], tilted, rotz)
		c.Distinct("%s", line)
		c.Sample("%s", line)
		a := vip.ParsePlane(line)
		b := bedPlane{p: p, tilted: tilted, rotz: rotz}
		c.Check(v3(a.P).Dist(p) < 2e-3, "ParsePlane(%q) has the point %v", line, a.P)
		c.Check(vv3(a.N).Dist(b.n()) < 5e-5, "ParsePlane(%q) has the normal %v, not %v", line, a.N, b.n())
		q, t, z := readSuggestion(c, a.String())
		c.Check(q.Dist(p) < 3e-3 && t == tilted && math.Abs(z-rotz) < 2e-3, "%q is written as %q after it is read", line, a.String())
		c.Event("random planes read back", 1)
		return
	}
	m, _ := leaning(r)
	if r.Intn(8) == 0 { // no overhangs
		m = geo.Loft("pyramid", geo.ConvexPoly(r, 3+r.Intn(8), 10, 10), []float64{0, 5 + 10*r.Float64()}, func(l int, p geo.P2) geo.P2 {
			s := 1 - 0.6*float64(l)
			return geo.P2{p[0] * s, p[1] * s}
		})
	}
	if r.Intn(3) == 0 {
		m = m.Rotate(geo.AxisAngle(geo.V3{0, 0, 1}, 360*r.Float64()))
	}
	lo, hi := m.Bounds()
	m = m.Translate(geo.V3{40*r.Float64() - 20 - (lo[0]+hi[0])/2, 40*r.Float64() - 20 - (lo[1]+hi[1])/2, run.Pick(r, 0, 0, 0, 0, 0.005, 3) - lo[2]})
	if len(m.F) > 2500 {
		c.Skip("more than 2500 facets")
	}
	m = m.Shuffle(r)
	angle := run.Pick(r, 30, 30, 30, 45, 20, 10, 60, 5+70*r.Float64())
	what := fmt.Sprintf("%s (%d facets), angle %.4g", m.Name, len(m.F), angle)
	c.Distinct("%v %v", m.V, angle)
	c.Sample("%s", what)
	if c.I%50 == 0 {
		c21cmd(c, m, angle)
		return
	}
	mesh := toMesh(m)
	before := copyMesh(mesh)
	planes := vip.Analyze(mesh, angle)
	c.Check(sameMesh(mesh, before), "%s: the mesh is modified", what)
	var cs []cutPlane
	for i, a := range planes {
		c.Check(v3(a.P).Finite() && vv3(a.N).Finite(), "%s: suggestion %d is %v", what, i, a.Plane)
		// alternation, tilt, planes file
		p, tilted, rotz := readSuggestion(c, a.String())
		c.Check(tilted == (i%2 == 0), "%s: suggestion %d (%s) is out of turn", what, i, a)
		if tilted {
			c.Check(near(a.N.Z, 0.5, 1e-9) && near(vv3(a.N).Len(), 1, 1e-9), "%s: tilted suggestion %d has the normal %v", what, i, a.N)
			c.Event("tilted suggestions", 1)
		} else {
			c.Check(vv3(a.N).Dist(geo.V3{0, 0, 1}) < 1e-9, "%s: horizontal suggestion %d has the normal %v", what, i, a.N)
			c.Event("horizontal suggestions", 1)
		}
		c.Check(p.Dist(v3(a.P)) < 1e-3, "%s: suggestion %d has the point %v, its line in a planes file is %q", what, i, a.P, a)
		file := bedPlane{p: p, tilted: tilted, rotz: rotz}
		c.Check(file.n().Dist(vv3(a.N)) < 5e-5, "%s: suggestion %d has the normal %v, its line in a planes file is %q", what, i, a.N, a)
		b := vip.ParsePlane(a.String())
		c.Check(v3(b.P).Dist(v3(a.P)) < 2e-3 && vv3(b.N).Dist(vv3(a.N)) < 5e-5 && b.String() == a.String(), "%s: suggestion %d is %v, read back from a planes file it is %v (%q)", what, i, a.Plane, b.Plane, b)
		c.Event("planes read back", 1)
		judgeSuggestion(c, fmt.Sprintf("%s: suggestion %d (%s)", what, i, a), m, angle, cs, &a.Plane)
		cs = append(cs, cutPlane{p: v3(a.P), n: vv3(a.N)})
	}
	if len(planes) < 6 {
		judgeSuggestion(c, what, m, angle, cs, nil)
		c.Event("analyses that ended before the limit", 1)
	}
	c.Check(len(planes) <= 6, "%s: %d suggestions", what, len(planes))
	if len(planes) == 0 {
		c.Event("models without overhangs", 1)
		return
	}
	c.Event("models with overhangs", 1)
	if r.Intn(2) > 0 {
		return
	}
	// turned about Z: the lowest overhanging facet may be another one where several are equally low, so this is
	// compared for the first suggestion and only where it is unique
	if n, down := lowest(m, angle); n != 1 || down {
		return
	}
	t := run.Pick(r, 90, 180, 360*r.Float64())
	rot := geo.AxisAngle(geo.V3{0, 0, 1}, t)
	turned := vip.Analyze(toMesh(m.Rotate(rot)), angle)
	c.Check(len(turned) > 0, "%s has suggestions, but none if it is turned by %v", what, t)
	n := rot.Apply(vv3(planes[0].N))
	c.Check(vv3(turned[0].N).Dist(n) < 1e-5, "%s: the first suggestion has the normal %v, turned by %v it has %v", what, planes[0].N, t, turned[0].N)
	off := n.Dot(rot.Apply(v3(planes[0].P)).Sub(v3(turned[0].P)))
	c.Check(math.Abs(off) < 1e-4, "%s: the first suggestion is moved by %v if the model is turned by %v", what, off, t)
	c.Event("models turned", 1)
}

// lowest counts the vertices on which the lowest overhanging facets may stand.
func lowest(m *geo.IMesh, angle float64) (n int, down bool) {
	low := math.Inf(1)
	var ps []geo.V3
	for _, t := range m.Tris() {
		if overhangNear(t, angle, geo.V3{0, 0, 1}) == 0 {
			continue
		}
		top := math.Max(t[0][2], math.Max(t[1][2], t[2][2]))
		if top < 0.01-1e-4 {
			continue
		}
		z := math.Min(t[0][2], math.Min(t[1][2], t[2][2]))
		if z < low-1e-3 {
			low, ps, down, n = z, nil, false, 0
		}
		if z < low+1e-3 {
			n++ // facets
			k := 0
			for _, p := range t {
				if p[2] < z+1e-3 {
					ps = append(ps, p)
					k++
				}
			}
			if k > 1 {
				n++
			}
			u := t[1].Sub(t[0]).Cross(t[2].Sub(t[0])).Unit()
			down = down || math.Hypot(u[0], u[1]) < 1e-3
		}
	}
	return
}

func overhangNear(t [3]geo.V3, angle float64, dir geo.V3) int {
	n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
	w := dir.Mul(-1)
	a := math.Atan2(n.Cross(w).Len(), n.Dot(w)) * 180 / math.Pi
	if math.Abs(a-(90-angle)) < 1e-4 || !(n.Len() > 1e-9) {
		return -1
	}
	if a < 90-angle {
		return 1
	}
	return 0
}

// judgeSuggestion checks that the suggestion made after the cuts cs is the one for the lowest overhanging facet, or,
// without a suggestion, that no overhanging facet is left.
func judgeSuggestion(c *run.Case, what string, m *geo.IMesh, angle float64, cs []cutPlane, got *Plane) {
	dir, bottom := geo.V3{0, 0, 1}, 0.0
	if len(cs) > 0 {
		dir = cs[len(cs)-1].u()
		bottom = cs[len(cs)-1].d()
	}
	sure := math.Inf(1)
	var sureT [3]geo.V3
	fits, why := false, "no facet overhangs"
	h := math.NaN()
	if got != nil {
		h = v3(got.P).Dot(dir)
	}
	for _, t := range m.Tris() {
		o := overhangNear(t, angle, dir)
		if o == 0 {
			continue
		}
		ps := [][3]geo.V3{t}
		for _, k := range cs {
			ps = geo.Clip(ps, k.u(), k.d()-1e-6)
		}
		if len(ps) == 0 {
			continue
		}
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, p := range ps {
			for _, v := range p {
				lo = math.Min(lo, v.Dot(dir))
				hi = math.Max(hi, v.Dot(dir))
			}
		}
		if hi-bottom < 0.01-1e-4 {
			continue
		}
		if o == 1 && hi-bottom > 0.01+1e-4 && (len(cs) == 0 || geo.Area(ps) > 1e-3) {
			if lo < sure {
				sure, sureT = lo, t
			}
		}
		if got == nil || fits {
			continue
		}
		// is it the one?
		d := math.Inf(1)
		for _, p := range ps {
			d = math.Min(d, triDist(v3(got.P), p))
		}
		if math.Abs(h-lo) > 2e-3 || d > 2e-3 {
			why = fmt.Sprintf("it does not pass through the lowest point of an overhanging facet (it is %.4g above and %.4g off %v)", h-lo, d, t)
			continue
		}
		if len(cs)%2 == 0 {
			u := t[1].Sub(t[0]).Cross(t[2].Sub(t[0])).Unit()
			if l := math.Hypot(u[0], u[1]); l > 1e-6 {
				side := geo.V3{u[0] / l, u[1] / l, 0}
				lean := geo.V3{got.N.X, got.N.Y, 0}.Unit()
				if side.Dist(lean) > 1e-6/l+2e-3 {
					why = fmt.Sprintf("it leans towards %v and not to the side %v of the facet %v", lean, side, t)
					continue
				}
			}
		}
		fits = true
	}
	if got == nil {
		c.Check(math.IsInf(sure, 1), "%s: after %d suggestions the overhanging facet %v has none", what, len(cs), sureT)
		return
	}
	if !fits && len(cs) > 1 {
		// surfaces of earlier cuts may count as facets
		for _, k := range cs[:len(cs)-1] {
			if math.Abs(v3(got.P).Dot(k.u())-k.d()) < 2e-3 {
				c.Event("suggestions for a cut surface", 1)
				fits = true
			}
		}
	}
	c.Check(fits, "%s: %s", what, why)
	c.Check(h < sure+2e-3, "%s is at %.6g along %v, the overhanging facet %v goes down to %.6g", what, h, dir, sureT, sure)
	c.Event("suggestions judged", 1)
}

func c21cmd(c *run.Case, m *geo.IMesh, angle float64) {
	r := c.R
	d := c.Tmp()
	f, out := filepath.Join(d, "in.stl"), filepath.Join(d, "planes.txt")
	ts := round32(m.Tris())
	must(os.WriteFile(f, stlBytes(ts), 0644))
	off := geo.V3{}
	if r.Intn(2) == 0 {
		off = geo.V3{math.Round(100*r.Float64()) - 50, math.Round(50*r.Float64()) - 25, (math.Round(32*r.Float64()) - 12) / 2}
	}
	angle = math.Round(angle*1000) / 1000
	res := command(c, d, "", "goosli_analyzer", "--stl="+f, "--out="+out, "--angle="+fdot(angle), "--originx="+fdot(off[0]), "--originy="+fdot(off[1]), "--originz="+fdot(off[2]))
	c.Check(res.code == 0, "goosli_analyzer failed: %s", res.text)
	b, err := os.ReadFile(out)
	c.Check(err == nil, "goosli_analyzer wrote nothing: %v", err)
	var in []Triangle
	for _, t := range ts {
		in = append(in, NewTriangle(pt(t[0]), pt(t[1]), pt(t[2])))
	}
	mesh := NewMesh(in)
	mesh.Shift(vec(off))
	want := ""
	for _, a := range vip.Analyze(&mesh, angle) {
		want += a.String() + "\n"
	}
	c.Check(string(b) == want, "goosli_analyzer of %s moved by %v wrote\n%s\nthe function suggests\n%s", m.Name, off, b, want)
	c.Event("commands", 1)
}
