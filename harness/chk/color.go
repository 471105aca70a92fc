//go:build !only || C20

package chk

import (
	"math"
	"math/rand"
	"os"
	"path/filepath"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

func init() {
	run.Register(&run.Property{ID: "C20", Level: "exploration", Quick: 12000, Full: 300000, Min: 6000,
		Must: []string{"facets marked", "facets not marked", "facets looking exactly down", "facets looking exactly up", "tiny facets", "huge facets", "commands", "tilted directions", "directions that are not unit"},
		Rule: "a case is a solid or a set of facets (some exactly along the direction, tiny or huge), a build direction and an angle, given to ColorizeTriangles and FilterTrianglesByColor, every 60th to the goosli_colorizer command; distinct by facets, angle and direction",
		Run:  c20})
}

func c20(c *run.Case) {
	r := c.R
	cmd := c.I%60 == 0
	angle := run.Pick(r, 30, 30, 45, 0, 60, 89, 90, 100, -45, -90, 180*r.Float64()-90, 90*r.Float64())
	dir := run.Pick(r, geo.V3{0, 0, 1}, geo.V3{0, 0, 1}, geo.V3{0, 0, -1}, geo.V3{1, 0, 0}, geo.RandomDir(r), geo.RandomDir(r))
	if r.Intn(2) == 0 {
		dir = dir.Mul(math.Pow(10, 4*r.Float64()-2))
		c.Event("directions that are not unit", 1)
	}
	if cmd {
		for k := range dir {
			dir[k] = math.Round(dir[k]*1000) / 1000
		}
		if dir.Len() == 0 {
			dir = geo.V3{0, 0, 2}
		}
	}
	if dir[0] != 0 || dir[1] != 0 {
		c.Event("tilted directions", 1)
	}
	var ts [][3]geo.V3
	if r.Intn(2) == 0 {
		ts = placed(r, -1, 20).Tris()
	}
	u := dir.Unit()
	for i, n := 0, 3+r.Intn(40); i < n; i++ {
		ts = append(ts, randFacet(c, r, u, angle))
	}
	if r.Intn(4) == 0 {
		for k := r.Intn(4); k >= 0; k-- {
			ts = append(ts, ts[r.Intn(len(ts))])
		}
		c.Event("facets that are there twice", 1)
	}
	if r.Intn(1500) == 0 {
		ts = append(ts, geo.Ball("fine ball", 6, func(geo.V3) float64 { return 30 }).Tris()...)
		c.Event("tens of thousands of facets", 1)
	}
	r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	if r.Intn(50) == 0 {
		ts = nil
	}
	if cmd {
		ts = round32(ts)
	}
	var in []Triangle
	for _, t := range ts {
		in = append(in, NewTriangle(pt(t[0]), pt(t[1]), pt(t[2])))
	}
	m := NewMesh(in)
	before := copyMesh(&m)
	var flags []bool
	var what string
	if cmd {
		d := c.Tmp()
		f := filepath.Join(d, "in.stl")
		must(os.WriteFile(f, stlBytes(ts), 0644))
		out := filepath.Join(d, "colors.bin")
		res := command(c, d, run.Pick(r, "", "0", "0-2"), "goosli_colorizer", "--stl", f, "--out", out, "--angle="+fdot(angle), "--normali="+fdot(dir[0]), "--normalj="+fdot(dir[1]), "--normalk="+fdot(dir[2]))
		c.Check(res.code == 0, "goosli_colorizer failed: %s", res.text)
		b, err := os.ReadFile(out)
		c.Check(err == nil, "goosli_colorizer wrote nothing: %v", err)
		for _, x := range b {
			c.Check(x <= 1, "goosli_colorizer wrote a byte %d", x)
			flags = append(flags, x == 1)
		}
		angle = math.Round(angle*1e9) / 1e9
		what = "goosli_colorizer"
		c.Event("commands", 1)
	} else {
		flags = helpers.ColorizeTriangles(m, angle, vec(dir))
		what = "ColorizeTriangles"
		c.Check(sameMesh(before, &m), "%s modified the mesh", what)
	}
	c.Check(len(flags) == len(ts), "%s: %d flags for %d facets", what, len(flags), len(ts))
	for i, t := range ts {
		want := overhang(t, angle, dir)
		if want < 0 {
			c.Event("too close to the limit", 1)
			continue
		}
		c.Check(flags[i] == (want == 1), "%s: facet %d %v with normal %v is marked %v, angle %v, direction %v", what, i, t, in[i].N, flags[i], angle, dir)
		if want == 1 {
			c.Event("facets marked", 1)
		} else {
			c.Event("facets not marked", 1)
		}
	}
	if !cmd {
		got := helpers.FilterTrianglesByColor(m, angle, vec(dir))
		k := 0
		for i, t := range m.Triangles {
			if flags[i] {
				c.Check(k < len(got) && got[k] == t, "FilterTrianglesByColor: marked facet %d is not in its place", i)
				k++
			}
		}
		c.Check(k == len(got), "FilterTrianglesByColor: %d facets are returned, %d are marked", len(got), k)
		c.Check(sameMesh(before, &m), "FilterTrianglesByColor modified the mesh")
	}
	c.Distinct("%v %v %v", ts, angle, dir)
}

// randFacet draws facets of any size, often looking straight along the direction or near the limit
func randFacet(c *run.Case, r *rand.Rand, u geo.V3, angle float64) [3]geo.V3 {
	size := math.Pow(10, 2-7*r.Float64())
	if size < 0.01 {
		c.Event("tiny facets", 1)
	} else if size > 50 {
		c.Event("huge facets", 1)
	}
	e := geo.RandomDir(r).Cross(u).Unit()
	f := u.Cross(e) // e x f = u
	n := u
	switch r.Intn(4) {
	case 0: // up
		c.Event("facets looking exactly up", 1)
	case 1: // down
		e, f = f, e
		n = u.Mul(-1)
		c.Event("facets looking exactly down", 1)
	case 2: // near the limit
		rot := geo.AxisAngle(e, 180-(90-angle)+run.Pick(r, 1., -1)*math.Pow(10, -4*r.Float64()))
		f = rot.Apply(f)
		n = rot.Apply(u)
	default:
		n = geo.RandomDir(r)
		e = geo.RandomDir(r).Cross(n).Unit()
		f = n.Cross(e)
	}
	_ = n
	o := rndV(r, run.Pick(r, 0., 1, 50))
	a := r.Float64() * 6
	p := func(t float64) geo.V3 {
		return o.Add(e.Mul(size * math.Cos(a+t))).Add(f.Mul(size * math.Sin(a+t)))
	}
	return [3]geo.V3{p(0), p(1 + r.Float64()), p(3 + r.Float64())}
}
