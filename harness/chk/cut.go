package chk

import (
	"math"
	"os"
	"path/filepath"

	"verif/geo"
	"verif/run"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
)

func init() {
	run.Register(&run.Property{ID: "C06", Level: "exploration", Quick: 8000, Full: 250000, Min: 4000,
		Must: []string{"cuts", "planes that miss the mesh", "planes exactly through vertices", "planes exactly through facets", "cuts with several contours", "cuts with concave contours", "normals that are not unit", "points located", "second cuts", "third cuts", "commands", "empty meshes", "planes 0.2 to 4 um from vertices"},
		Rule: "a case is a solid, a plane (any; exactly through vertices, edges or facets of a grid solid; missing the mesh; 0.2 to 4 um from vertices with fans of facets) and up to two more planes for the parts; distinct by mesh and planes; every 40th case runs goosli_cutter",
		Run:  c06})
}

type cutPlane struct {
	p, n geo.V3
}

func (k cutPlane) u() geo.V3  { return k.n.Unit() }
func (k cutPlane) d() float64 { return k.p.Dot(k.u()) }
func (k cutPlane) plane() Plane {
	return Plane{P: pt(k.p), N: vec(k.n)}
}

func c06(c *run.Case) {
	r := c.R
	if c.I%500 == 3 {
		for _, m := range []*Mesh{nil, {}} {
			a, b, err := helpers.CutMesh(m, Plane{P: pt(rndV(r, 10)), N: vec(geo.RandomDir(r))})
			c.Check(err == nil && a != nil && b != nil && len(a.Triangles) == 0 && len(b.Triangles) == 0, "an empty mesh is cut to %v %v %v", a, b, err)
		}
		c.Event("empty meshes", 1)
		return
	}
	cmd := c.I%40 == 0
	var m *geo.IMesh
	var k cutPlane
	exact := c.I%3 == 0
	close := c.I%9 == 2 // 0.2 to 4 um from vertices
	through := c.I%3 == 1 && r.Intn(2) == 0 // through vertices, edges and facets up to rounding
	if exact {
		m = gridded(r)
		if r.Intn(2) == 0 {
			m = m.Translate(geo.V3{float64(r.Intn(100)), float64(-r.Intn(100)), float64(r.Intn(5) - 2)})
		}
		k.p = m.V[r.Intn(len(m.V))]
		switch r.Intn(3) {
		case 0: // along the grid, often in facets
			k.n[r.Intn(3)] = run.Pick(r, 1., -1, 2)
			// plane is the same, but its point is another
			for i := range k.p {
				if k.n[i] == 0 && r.Intn(2) == 0 {
					k.p[i] += float64(r.Intn(9))
				}
			}
		case 1: // facet
			t := m.Tris()[r.Intn(len(m.F))]
			k.p = t[0]
			k.n = t[1].Sub(t[0]).Cross(t[2].Sub(t[0])).Mul(run.Pick(r, 1., -1))
		default: // through a vertex
			for k.n.Len() == 0 {
				k.n = geo.V3{float64(r.Intn(5) - 2), float64(r.Intn(5) - 2), float64(r.Intn(5) - 2)}
			}
		}
	} else if close {
		m, k.n = geo.NearPlanes(r, 1, 2e-7)
		lo, hi := m.MinMax(k.n)
		a, b := planeFrame(k.n)
		k.p = k.n.Mul((lo + hi) / 2).Add(a.Mul(3 * r.NormFloat64())).Add(b.Mul(3 * r.NormFloat64()))
		if r.Intn(2) == 0 {
			k.n = k.n.Mul(-1)
		}
		cmd = false
	} else {
		m = placed(r, -1, run.Pick(r, 0., 20, 200))
		k.n = randDir(r)
		lo, hi := m.MinMax(k.n)
		f := r.Float64()
		if r.Intn(12) == 0 {
			f = run.Pick(r, -0.2, 1.2, -3, 4)
		}
		a, b := planeFrame(k.n)
		bl, bh := m.Bounds()
		mid := bl.Lerp(bh, 0.5)
		k.p = mid.Add(k.n.Mul(lo + (hi-lo)*f - mid.Dot(k.n))).Add(a.Mul(10 * r.NormFloat64())).Add(b.Mul(10 * r.NormFloat64()))
		if through {
			t := m.Tris()[r.Intn(len(m.F))]
			k.p = t[0]
			switch r.Intn(3) {
			case 0: // an edge
				k.n = t[1].Sub(t[0]).Cross(k.n).Unit()
			case 1: // a facet
				k.n = t[1].Sub(t[0]).Cross(t[2].Sub(t[0])).Unit()
			}
			if !(k.n.Len() > 0.5) {
				c.Skip("rounding")
			}
			k.p = k.p.Add(k.n.Mul(run.Pick(r, 0, 0, 0, 1., -1) * math.Pow(10, -8-4*r.Float64())))
			if r.Intn(3) == 0 {
				k.p = t[0].Add(k.n.Mul(run.Pick(r, 1., -1) * 2e-7 * math.Pow(20, r.Float64())))
				through, close = false, true
			}
		}
		if r.Intn(3) == 0 {
			k.n = k.n.Mul(math.Pow(10, 4*r.Float64()-2))
			c.Event("normals that are not unit", 1)
		}
	}
	if cmd {
		m = m.Round32()
		for i := range k.p {
			k.p[i] = math.Round(k.p[i]*1e6) / 1e6
			k.n[i] = math.Round(k.n[i]*1e6) / 1e6
		}
		if m.Watertight() != nil || k.n.Len() < 0.5 {
			c.Skip("rounding")
		}
	}
	countLarge(c, m)
	c.Distinct("%v %v", m.V, k)
	mesh := toMesh(m)
	before := copyMesh(mesh)
	up, down, err := helpers.CutMesh(mesh, k.plane())
	c.Check(err == nil && up != nil && down != nil, "cut failed: %v", err)
	c.Check(sameMesh(mesh, before), "CutMesh modified the mesh")
	c.Event("cuts", 1)
	if cmd {
		cutter(c, m, k, up, down)
	}
	ts := m.Tris()
	hs := m.SortedHeights(k.u())
	if nd := geo.NearestHeight(hs, k.d()); nd < 1e-4 {
		rounding := through
		for _, h := range hs {
			d := math.Abs(h - k.d())
			rounding = rounding && (d < 2e-8 || d > 1e-4)
		}
		if close {
			c.Event("planes 0.2 to 4 um from vertices", 1)
		} else if rounding {
			c.Event("planes through vertices up to rounding", 1)
		} else if !exact {
			c.Event("planes that are too near to a vertex, not judged", 1)
			return
		}
		if rounding || close {
		} else if exact && nd < 1e-9 {
			c.Event("planes exactly through vertices", 1)
			for _, t := range ts {
				in := true
				for _, p := range t {
					in = in && math.Abs(p.Dot(k.u())-k.d()) < 1e-9
				}
				if in {
					c.Event("planes exactly through facets", 1)
					break
				}
			}
		} else {
			c.Event("planes that are too near to a vertex, not judged", 1)
			return
		}
	}
	if k.d() > hs[len(hs)-1] || k.d() < hs[0] {
		c.Event("planes that miss the mesh", 1)
	}
	what := m.Name + " cut by " + vstr(k.p) + " " + vstr(k.n)
	judgePart(c, what+", upper part", ts, tris(up), []cutPlane{k})
	nk := cutPlane{k.p, k.n.Mul(-1)}
	judgePart(c, what+", lower part", ts, tris(down), []cutPlane{nk})
	sec := geo.Section(ts, k.u(), k.d()-1e-6)
	if turns(sec, k.u()) > 1 {
		c.Event("cuts with several contours", 1)
	}
	if concaveSection(sec, k.u()) {
		c.Event("cuts with concave contours", 1)
	}
	// points of the space: a point is in exactly the part of its side
	lo, hi := m.Bounds()
	size := hi.Dist(lo)
	tu, td := tris(up), tris(down)
	for i := 0; i < 6; i++ {
		p := geo.V3{lo[0] + (hi[0]-lo[0])*r.Float64(), lo[1] + (hi[1]-lo[1])*r.Float64(), lo[2] + (hi[2]-lo[2])*r.Float64()}
		if i%2 == 0 { // near the plane
			p = p.Add(k.u().Mul(k.d() - p.Dot(k.u()) + 0.1*size*(2*r.Float64()-1)))
		}
		if math.Abs(p.Dot(k.u())-k.d()) < 0.01*size || surfDist(ts, p) < 0.01*size {
			continue
		}
		w := windingNumber(ts, p)
		wu, wd := windingNumber(tu, p), windingNumber(td, p)
		eu, ed := w, 0.
		if p.Dot(k.u()) < k.d() {
			eu, ed = 0, w
		}
		c.Check(near(wu, eu, 0.02) && near(wd, ed, 0.02), "%s: point %s is %v times in the solid, %v times in the upper part and %v times in the lower part; has to be %v and %v", what, vstr(p), w, wu, wd, eu, ed)
		c.Event("points located", 1)
	}
	if exact || through || close {
		return
	}
	// more cuts of the parts
	parts := []*Mesh{up, down}
	hist := [][]cutPlane{{k}, {nk}}
	names := []string{"second cuts", "third cuts"}
	for step := 0; step < 2; step++ {
		i := r.Intn(2)
		part, ks := parts[i], hist[i]
		if len(part.Triangles) == 0 {
			break
		}
		q := cutPlane{n: geo.RandomDir(r)}
		lo, hi := part.MinMaxZ(vec(q.n))
		q.p = q.n.Mul(lo + (hi-lo)*(0.2+0.6*r.Float64()))
		near := false
		for _, t := range tris(part) {
			for _, p := range t {
				near = near || math.Abs(p.Dot(q.u())-q.d()) < 1e-4
			}
		}
		if near {
			break
		}
		for _, a := range ks {
			near = near || a.u().Cross(q.u()).Len() < 0.3
		}
		if len(ks) == 2 {
			_, det := geo.Solve3([3]geo.V3{ks[0].u(), ks[1].u(), q.u()}, [3]float64{})
			near = near || math.Abs(det) < 0.2
		}
		if near {
			break
		}
		a, b, err := helpers.CutMesh(part, q.plane())
		c.Check(err == nil, "cut failed: %v", err)
		nq := cutPlane{q.p, q.n.Mul(-1)}
		parts = []*Mesh{a, b}
		hist = [][]cutPlane{append(append([]cutPlane(nil), ks...), q), append(append([]cutPlane(nil), ks...), nq)}
		for j := range parts {
			judgePart(c, what+", "+names[step], ts, tris(parts[j]), hist[j])
		}
		c.Event(names[step], 1)
	}
}

// judgePart compares a part with the solid ts in front of all the planes.
func judgePart(c *run.Case, what string, ts, part [][3]geo.V3, ks []cutPlane) {
	for i, t := range part {
		for _, p := range t {
			c.Check(p.Finite(), "%s: facet %d is not finite: %v", what, i, t)
		}
	}
	want := ts
	lo, hi := geo.V3{1e18, 1e18, 1e18}, geo.V3{-1e18, -1e18, -1e18}
	for _, t := range ts {
		for _, p := range t {
			for k := range p {
				lo[k], hi[k] = math.Min(lo[k], p[k]), math.Max(hi[k], p[k])
			}
		}
	}
	size := hi.Dist(lo)
	for _, k := range ks {
		want = geo.Clip(want, k.u(), k.d())
		// nothing on the other side (tips of facets narrower than 1e-6 aside)
		for i, t := range part {
			out := 0.
			for _, p := range t {
				out = math.Max(out, k.d()-p.Dot(k.u()))
			}
			if out > 1.1e-6 {
				a := geo.Area(geo.ClipTri(t, k.u().Mul(-1), -k.d()))
				if len(ks) == 1 {
					c.Check(a < 2e-6*size, "%s: facet %d %v is on the other side of the plane, %v of its area, up to %v", what, i, t, a, out)
				}
			}
		}
	}
	// apex in all planes, so the cut surfaces do not count
	apex := lo.Lerp(hi, 0.5)
	switch len(ks) {
	case 1:
		apex = apex.Sub(ks[0].u().Mul(apex.Dot(ks[0].u()) - ks[0].d()))
	case 2:
		n := ks[0].u().Cross(ks[1].u()).Unit()
		apex, _ = geo.Solve3([3]geo.V3{ks[0].u(), ks[1].u(), n}, [3]float64{ks[0].d(), ks[1].d(), apex.Dot(n)})
	case 3:
		apex, _ = geo.Solve3([3]geo.V3{ks[0].u(), ks[1].u(), ks[2].u()}, [3]float64{ks[0].d(), ks[1].d(), ks[2].d()})
	}
	far := size
	for _, p := range []geo.V3{lo, hi} {
		far = math.Max(far, p.Dist(apex))
	}
	v, w := geo.VolumeAbout(want, apex), geo.VolumeAbout(part, apex)
	e := 1e-6 * size * (size + far) * float64(len(ks))
	c.Check(near(v, w, e), "%s: volume is %v, the solid in front of the planes %v has %v (tolerance %v)", what, w, ks, v, e)
	av := geo.AreaVector(part)
	e = 1e-4 * size * float64(len(ks))
	c.Check(av.Len() <= e, "%s: not closed, the sum of area vectors is %s (tolerance %v)", what, vstr(av), e)
	// the same volume from another apex, so the cut surfaces are where they have to be
	mid := lo.Lerp(hi, 0.5).Add(geo.V3{0.7, 0.9, 1.1}.Mul(size))
	c.Check(near(geo.VolumeAbout(part, mid), v, 1e-4*size*size*float64(len(ks))), "%s: not closed, the volume is %v or %v", what, v, geo.VolumeAbout(part, mid))
}

func cutter(c *run.Case, m *geo.IMesh, k cutPlane, up, down *Mesh) {
	d := c.Tmp()
	f := filepath.Join(d, "in.stl")
	must(os.WriteFile(f, stlBytes(m.Tris()), 0644))
	var args []string
	for i, n := range []string{"pointx", "pointy", "pointz"} {
		args = append(args, "--"+n+"="+fdot15(k.p[i]))
	}
	for i, n := range []string{"normali", "normalj", "normalk"} {
		args = append(args, "--"+n+"="+fdot15(k.n[i]))
	}
	o1, o2 := filepath.Join(d, "up.stl"), filepath.Join(d, "down.stl")
	res := command(c, d, "", "goosli_cutter", append(args, "--stl", f, "--out1", o1, "--out2", o2)...)
	c.Check(res.code == 0, "goosli_cutter failed: %s", res.text)
	for i, o := range []string{o1, o2} {
		b, err := os.ReadFile(o)
		c.Check(err == nil, "goosli_cutter did not write %s", filepath.Base(o))
		got, err := parseSTL(b)
		c.Check(err == nil, "goosli_cutter: %v", err)
		want := round32(tris([]*Mesh{up, down}[i]))
		c.Check(len(got) == len(want), "goosli_cutter: %s has %d facets, the part has %d", filepath.Base(o), len(got), len(want))
		for j := range got {
			c.Check(got[j] == want[j], "goosli_cutter: facet %d of %s is %v, the part has %v", j, filepath.Base(o), got[j], want[j])
		}
	}
	c.Event("commands", 1)
}

// turns is the number of closed contours
func turns(segs []geo.Seg, n geo.V3) int {
	return len(loops(segs))
}

// loops assembles exact section segments
func loops(segs []geo.Seg) [][]geo.V3 {
	type key [3]int64
	const cell = 1e-6
	kk := func(p geo.V3) key {
		return key{int64(math.Floor(p[0] / cell)), int64(math.Floor(p[1] / cell)), int64(math.Floor(p[2] / cell))}
	}
	starts := map[key][]int{}
	for i, s := range segs {
		starts[kk(s.A)] = append(starts[kk(s.A)], i)
	}
	used := make([]bool, len(segs))
	next := func(p geo.V3) int {
		n, best := -1, 3e-7
		c := kk(p)
		for x := int64(-1); x <= 1; x++ {
			for y := int64(-1); y <= 1; y++ {
				for z := int64(-1); z <= 1; z++ {
					for _, k := range starts[key{c[0] + x, c[1] + y, c[2] + z}] {
						if d := segs[k].A.Dist(p); !used[k] && d < best {
							n, best = k, d
						}
					}
				}
			}
		}
		return n
	}
	var out [][]geo.V3
	for i := range segs {
		if used[i] {
			continue
		}
		var l []geo.V3
		for j := i; j >= 0; j = next(segs[j].B) {
			used[j] = true
			l = append(l, segs[j].A)
		}
		if len(l) > 2 {
			out = append(out, l)
		}
	}
	return out
}

func concaveSection(segs []geo.Seg, n geo.V3) bool {
	for _, l := range loops(segs) {
		pos, neg := 0, 0
		for i := range l {
			a, b, d := l[i], l[(i+1)%len(l)], l[(i+2)%len(l)]
			s := b.Sub(a).Unit().Cross(d.Sub(b).Unit()).Dot(n)
			if s > 0.01 {
				pos++
			} else if s < -0.01 {
				neg++
			}
		}
		if pos > 0 && neg > 0 {
			return true
		}
	}
	return false
}
