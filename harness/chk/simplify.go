//go:build !only || C19

package chk

import (
	"fmt"
	"math"
	"os"
	"path/filepath"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/helpers"
)

func init() {
	run.Register(&run.Property{ID: "C19", Level: "exploration", Quick: 1500, Full: 30000, Min: 1000,
		Must: []string{"meshes returned as they are", "simplified meshes", "facets removed", "exact simplifications", "curved simplifications", "coarse simplifications", "commands", "commands with the default size", "vertices of the original on the result"},
		Rule: "a case is a closed mesh (subdivided so that it can be simplified without a change of shape, curved, or any) and a number of facets, given to SimplifyMesh, every 15th to the goosli_simplifier command; distinct by mesh and number",
		Run:  c19, Assumptions: []string{"volume and bounds are compared to 1e-5 for meshes that were subdivided and keep four times their original facets, to 10 % and 5 % of the size for curved ones that keep a fourth"}})
}

func c19(c *run.Case) {
	r := c.R
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	var m *geo.IMesh
	exact, curved := false, false
	var k int
	switch r.Intn(5) {
	case 0, 1: // flat parts can be merged
		for m == nil || len(m.F) > 150 {
			m = geo.RandomSolid(r, -1)
		}
		n0 := len(m.F)
		for m = m.Subdivide(); len(m.F) < 200 || r.Intn(3) == 0 && len(m.F) < 600; m = m.Subdivide() {
		}
		if len(m.F) <= 4*n0 {
			m = m.Subdivide()
		}
		exact = true
		k = 4*n0 + r.Intn(len(m.F)-4*n0)
	case 2: // curved
		s := geo.V3{u(5, 12), u(5, 12), u(5, 12)}
		if r.Intn(2) == 0 {
			m = geo.Ball("ball", 3+r.Intn(2), func(geo.V3) float64 { return 1 }).Scale(s)
		} else {
			m = geo.Torus(u(8, 12), u(2, 5), 20+r.Intn(20), 12+r.Intn(12))
		}
		curved = true
		k = len(m.F)/4 + r.Intn(len(m.F)*3/4)
	default: // any
		for m == nil || len(m.F) > 1500 {
			m = geo.RandomSolid(r, -1)
		}
		k = r.Intn(len(m.F))
		if r.Intn(4) == 0 {
			k = len(m.F) + r.Intn(5)
		}
		if r.Intn(8) == 0 {
			k = r.Intn(4)
		}
	}
	if r.Intn(2) == 0 {
		m = m.Rotate(geo.RandomRot(r))
	}
	if r.Intn(2) == 0 {
		m = m.Translate(geo.V3{u(-50, 50), u(-50, 50), u(-50, 50)})
	}
	m = m.Shuffle(r)
	if c.I%15 == 0 {
		c19cmd(c, m, k)
		return
	}
	what := fmt.Sprintf("%s (%d facets) simplified to %d", m.Name, len(m.F), k)
	c.Distinct("%v %d", m.V, k)
	c.Sample("%s", what)
	mesh := toMesh(m)
	before := copyMesh(mesh)
	res, err := helpers.SimplifyMesh(mesh, k)
	c.Check(sameMesh(mesh, before), "%s: the mesh is modified", what)
	if k >= len(m.F) {
		c.Check(err == nil && res != nil && sameMesh(res, before), "%s: another mesh is returned (error %v)", what, err)
		c.Event("meshes returned as they are", 1)
		return
	}
	if k < 4 {
		c.Check((err == nil) == (res != nil), "%s: error %v together with mesh %v", what, err, res != nil)
		if err != nil {
			c.Event("sizes that cannot be reached", 1)
			return
		}
	}
	c.Check(err == nil && res != nil, "%s: error %v", what, err)
	for i, t := range res.Triangles {
		n := vv3(t.N)
		w := v3(t.P2).Sub(v3(t.P1)).Cross(v3(t.P3).Sub(v3(t.P1)))
		c.Check(n.Dist(w) <= 1e-12*(1+w.Len()), "%s: facet %d has the normal %v instead of %v", what, i, n, w)
	}
	simplified(c, what, m, tris(res), k, exact, curved)
}

// chainClosed tells whether every edge is passed as often in one direction as in the other.
func chainClosed(ts [][3]geo.V3) error {
	type e struct{ a, b geo.V3 }
	n := map[e]int{}
	for i, t := range ts {
		if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
			return fmt.Errorf("facet %d has two equal vertices: %v", i, t)
		}
		for k := 0; k < 3; k++ {
			n[e{t[k], t[(k+1)%3]}]++
			n[e{t[(k+1)%3], t[k]}]--
		}
	}
	for k, v := range n {
		if v > 0 {
			return fmt.Errorf("edge %v-%v has no facet on the other side", k.a, k.b)
		}
	}
	return nil
}

func simplified(c *run.Case, what string, m *geo.IMesh, ts [][3]geo.V3, k int, exact, curved bool) {
	c.Check(len(ts) <= k, "%s: %d facets are left", what, len(ts))
	if exact || curved {
		c.Check(len(ts) >= k-12, "%s: only %d facets are left", what, len(ts))
	}
	err := chainClosed(ts)
	c.Check(err == nil, "%s: the result is not closed: %v", what, err)
	c.Event("simplified meshes", 1)
	c.Event("facets removed", len(m.F)-len(ts))
	for _, t := range ts {
		c.Check(t[0].Finite() && t[1].Finite() && t[2].Finite(), "%s: a facet is %v", what, t)
	}
	if len(ts) == 0 {
		return
	}
	lo, hi := m.Bounds()
	size := hi.Sub(lo).Len()
	slo, shi := ts[0][0], ts[0][0]
	for _, t := range ts {
		for _, p := range t {
			for a := range p {
				slo[a], shi[a] = math.Min(slo[a], p[a]), math.Max(shi[a], p[a])
			}
		}
	}
	out := math.Max(slo.Dist(lo), shi.Dist(hi)) / size
	vol, was := geo.TrisVolume(ts), m.Volume()
	dv := math.Abs(vol/was - 1)
	if exact {
		c.Check(dv < 1e-5 && out < 1e-5, "%s: the volume is %.9g instead of %.9g, the bounds are %v %v instead of %v %v", what, vol, was, slo, shi, lo, hi)
		for i := 0; i < 20; i++ {
			p := m.V[c.R.Intn(len(m.V))]
			d := surfDist(ts, p)
			c.Check(d < 1e-5*size, "%s: the vertex %v of the original is %.3g away from the result", what, p, d)
			c.Event("vertices of the original on the result", 1)
		}
		c.Event("exact simplifications", 1)
	} else if curved {
		c.Check(dv < 0.1 && out < 0.05, "%s: the volume is %.9g instead of %.9g, the bounds are %v %v instead of %v %v", what, vol, was, slo, shi, lo, hi)
		c.Event("curved simplifications", 1)
	} else {
		c.Event("coarse simplifications", 1)
	}
}

func c19cmd(c *run.Case, m *geo.IMesh, k int) {
	r := c.R
	m = m.Round32()
	d := cmdDir(c, "", "")
	f := writeSTL(c, m.Tris())
	out := filepath.Join(d, "out.stl")
	args := []string{"--stl", f}
	if r.Intn(2) == 0 {
		out = filepath.Join(d, "simple.stl")
		args = append(args, "--out", out)
	}
	if r.Intn(3) == 0 {
		k = 800
		c.Event("commands with the default size", 1)
	} else {
		args = append(args, "--triangles="+itoa(k))
	}
	what := fmt.Sprintf("goosli_simplifier, %s (%d facets) to %d", m.Name, len(m.F), k)
	c.Distinct("%v %d", m.V, k)
	c.Sample("%s", what)
	res := command(c, d, "", "goosli_simplifier", args...)
	c.Event("commands", 1)
	if k < 4 && res.code != 0 {
		c.Check(res.code == 1, "%s ended with %d: %s", what, res.code, tailOf(res.text))
		c.Event("sizes that cannot be reached", 1)
		return
	}
	c.Check(res.code == 0, "%s failed: %s", what, tailOf(res.text))
	b, err := os.ReadFile(out)
	c.Check(err == nil, "%s: no result: %v", what, err)
	ts, err := parseSTL(b)
	c.Check(err == nil, "%s: %v", what, err)
	if k >= len(m.F) {
		in := m.Tris()
		c.Check(len(ts) == len(in), "%s: %d facets", what, len(ts))
		for i := range ts {
			c.Check(ts[i] == in[i], "%s: facet %d is %v instead of %v", what, i, ts[i], in[i])
		}
		c.Event("meshes returned as they are", 1)
		return
	}
	// vertices may become equal when they are rounded to float32
	var kept [][3]geo.V3
	for _, t := range ts {
		if t[0] != t[1] && t[1] != t[2] && t[0] != t[2] {
			kept = append(kept, t)
		}
	}
	c.Check(len(ts) <= k, "%s: %d facets are left", what, len(ts))
	err = chainClosed(kept)
	c.Check(err == nil, "%s: the result is not closed: %v", what, err)
}
