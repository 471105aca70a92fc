package geo

import (
	"math"
	"math/rand"
	"sort"
)

func randPoly(r *rand.Rand) ([]P2, string) {
	switch r.Intn(6) {
	case 0:
		return RegularPoly(3+r.Intn(30), 4+6*r.Float64(), r.Float64()), "regular"
	case 1:
		return StarPoly(r, 5+r.Intn(20), 3, 10), "star"
	case 2:
		return ConvexPoly(r, 4+r.Intn(16), 3+8*r.Float64(), 3+8*r.Float64()), "convex"
	default:
		n := []string{"L", "U", "T", "plus", "comb"}[r.Intn(5)]
		return NamedPoly(n), n
	}
}

// RandomSolid draws a watertight solid of about 10-30 units. Kind -1 is any.
const Kinds = 14

func RandomSolid(r *rand.Rand, kind int) *IMesh {
	for {
		k := kind
		if k < 0 {
			k = r.Intn(Kinds)
		}
		m := randomSolid(r, k)
		if m == nil || m.Watertight() != nil || m.Volume() <= 0 {
			continue
		}
		return m
	}
}

func randomSolid(r *rand.Rand, k int) *IMesh {
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	switch k {
	case 0:
		return Box(u(1, 20), u(1, 20), u(1, 20))
	case 1: // prism
		p, n := randPoly(r)
		return Loft("prism-"+n, p, []float64{0, u(2, 20)}, Ident2)
	case 2: // leaning, tapered, twisted loft
		p, n := randPoly(r)
		if n == "comb" {
			return nil
		}
		L := 2 + r.Intn(6)
		z := make([]float64, L)
		h := u(4, 25)
		for i := range z {
			z[i] = h * float64(i) / float64(L-1)
		}
		lx, ly, tp, tw := u(-1, 1), u(-1, 1), u(-0.03, 0.03), u(-3, 3)
		return Loft("loft-"+n, p, z, func(l int, q P2) P2 {
			s := 1 + tp*z[l]
			a := tw * z[l] * math.Pi / 180
			x, y := q[0]*s, q[1]*s
			return P2{x*math.Cos(a) - y*math.Sin(a) + lx*z[l], x*math.Sin(a) + y*math.Cos(a) + ly*z[l]}
		})
	case 3: // vase
		n := 2 + r.Intn(6)
		prof := make([]P2, n)
		for i := range prof {
			prof[i] = P2{u(2, 9), 3 * float64(i) * u(0.8, 1.2)}
			if i > 0 && prof[i][1] <= prof[i-1][1] {
				prof[i][1] = prof[i-1][1] + 1
			}
		}
		return Revolve("vase", prof, 3+r.Intn(40))
	case 4:
		return Torus(u(6, 10), u(1, 4), 5+r.Intn(30), 3+r.Intn(20))
	case 5:
		n := 3 + r.Intn(20)
		ph := r.Float64()
		return Ring("ring", RegularPoly(n, u(7, 12), ph), RegularPoly(n, u(1, 3), ph), u(2, 15))
	case 6:
		a, b, c := u(4, 10), u(4, 10), u(4, 10)
		return Ball("ellipsoid", 1+r.Intn(3), func(v V3) float64 { return 1 }).Scale(V3{a, b, c})
	case 7: // bumpy star-shaped body
		f, g, h := u(1, 4), u(1, 4), u(1, 4)
		return Ball("bumpy", 2+r.Intn(2), func(v V3) float64 {
			return 7 + 1.5*math.Sin(f*3*v[0])*math.Cos(g*3*v[1]) + math.Sin(h*4*v[2])
		})
	case 8: // bent pipe
		n := 3 + r.Intn(8)
		sp := make([]V3, n)
		bend := u(0, 0.9)
		dir := u(0, 2*math.Pi)
		for i := range sp {
			t := float64(i) / float64(n-1)
			off := 10 * bend * t * t
			sp[i] = V3{off * math.Cos(dir), off * math.Sin(dir), 20 * t}
		}
		rr := u(1.5, 4)
		return Tube("pipe", sp, func(int) float64 { return rr }, 3+r.Intn(24))
	case 9:
		return Terrain(r, 2+r.Intn(6), u(8, 20), u(1, 3), u(1, 8))
	case 10:
		return Hull(r, 4+r.Intn(16), V3{u(3, 10), u(3, 10), u(3, 10)})
	case 11: // body with an inner void
		o := Ball("shell", 2, func(V3) float64 { return 10 })
		i := randomSolid(r, []int{0, 6, 10, 4}[r.Intn(4)])
		lo, hi := i.Bounds()
		c := lo.Add(hi).Mul(0.5)
		s := 10 / hi.Sub(lo).Len()
		i = i.Translate(c.Mul(-1)).Scale(V3{s, s, s})
		return Union(o, i.Flip())
	case 12: // several disjoint bodies
		n := 2 + r.Intn(3)
		var ms []*IMesh
		x := 0.0
		for k := 0; k < n; k++ {
			b := randomSolid(r, []int{0, 1, 3, 4, 6, 8, 10}[r.Intn(7)])
			if b == nil {
				return nil
			}
			lo, hi := b.Bounds()
			ms = append(ms, b.Translate(V3{x - lo[0], u(-3, 3), u(-5, 5)}))
			x += hi[0] - lo[0] + u(0.5, 4)
		}
		return Union(ms...)
	case 13: // finely tessellated prism: many triangles, side walls subdivided
		p, n := randPoly(r)
		m := Loft("fine-"+n, p, []float64{0, u(2, 8), u(9, 12)}, Ident2)
		if m == nil {
			return nil
		}
		for k := r.Intn(3); k > 0; k-- {
			m = m.Subdivide()
		}
		return m
	}
	panic(k)
}

// RandomRot is a uniformly random rotation.
func RandomRot(r *rand.Rand) Rot {
	return AxisAngle(V3{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}, 360*r.Float64())
}

func RandomDir(r *rand.Rand) V3 {
	return V3{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}.Unit()
}

// Large draws a solid that has much of something: bodies far from each other, corners, facets, teeth or height.
func Large(r *rand.Rand) *IMesh {
	u := func(lo, hi float64) float64 { return lo + (hi-lo)*r.Float64() }
	switch r.Intn(7) {
	case 0: // many bodies
		var ms []*IMesh
		n := 3 + r.Intn(6)
		step := u(12, 120)
		if r.Intn(3) == 0 {
			n, step = 2, u(400, 1200)
		}
		for i := 0; i < n; i++ {
			for j := 0; j < 2+r.Intn(7); j++ {
				ms = append(ms, RandomSolid(r, []int{0, 0, 1, 6, 10}[r.Intn(5)]).fit(10).Translate(V3{step * float64(i), 13 * float64(j), 0}))
			}
		}
		m := Union(ms...)
		m.Name = "field"
		return m
	case 1: // many corners
		n := 200 + r.Intn(500)
		k, a, R := float64(3+r.Intn(9)), u(0, 0.3), u(15, 60)
		p := RegularPoly(n, 1, r.Float64())
		for i, q := range p {
			s := R * (1 + a*math.Sin(k*math.Atan2(q[1], q[0])))
			p[i] = P2{q[0] * s, q[1] * s}
		}
		return Loft("gear", p, []float64{0, u(3, 20)}, Ident2)
	case 2: // many facets
		return Ball("fine ball", 4+r.Intn(2), func(V3) float64 { return 10 })
	case 3:
		return Torus(20, u(4, 9), 60+r.Intn(90), 30+r.Intn(30))
	case 4: // many teeth
		n := 8 + r.Intn(40)
		w, g := u(1, 4), u(1, 4)
		var p []P2
		p = append(p, P2{0, 0}, P2{float64(n)*(w+g) - g, 0})
		for i := n - 1; i >= 0; i-- {
			x := float64(i) * (w + g)
			p = append(p, P2{x + w, 20}, P2{x, 20})
			if i > 0 {
				p = append(p, P2{x, 5}, P2{x - g, 5})
			}
		}
		return Loft("long comb", p, []float64{0, u(2, 10)}, Ident2)
	case 5: // tall
		return Loft("tower", RegularPoly(3+r.Intn(20), u(3, 8), r.Float64()), []float64{0, 10, 40, u(100, 700)}, func(l int, q P2) P2 { return P2{q[0] + 0.2*float64(l), q[1]} })
	default: // far away
		m := RandomSolid(r, -1)
		d := V3{u(-900, 900), u(-900, 900), u(-300, 300)}
		switch r.Intn(4) {
		case 0:
			d[r.Intn(3)] = u(1000, 3000)
		case 1:
			d[r.Intn(3)] = -u(1000, 3000)
		}
		return m.Translate(d)
	}
}

// fit makes the solid fit in a cube at the origin.
func (m *IMesh) fit(size float64) *IMesh {
	lo, hi := m.Bounds()
	d := hi.Sub(lo)
	s := size / math.Max(d[0], math.Max(d[1], d[2]))
	return m.Translate(lo.Mul(-1)).Scale(V3{s, s, s})
}

// NearPlanes makes a prism (any outline that is seen from the origin, turned) whose sides are fans of triangles
// with vertices very close to the planes z_k = lo+(k+0.5)*(hi-lo)/n along d: at most 4e-6 and at least minD from them.
func NearPlanes(r *rand.Rand, n int, minD float64) (m *IMesh, d V3) {
	var poly []P2
	switch r.Intn(3) {
	case 0:
		poly = StarPoly(r, 3+r.Intn(6), 4, 10)
	case 1:
		poly = RegularPoly(3+r.Intn(6), 3+7*r.Float64(), r.Float64())
	default:
		poly = []P2{{-6, -4}, {7, -4}, {7, 5}, {-6, 5}}
	}
	for i, p := range poly {
		if q := poly[(i+1)%len(poly)]; p[0]*q[1]-p[1]*q[0] < 0.5 { // not seen from the origin
			poly = RegularPoly(5, 6, 0.3)
			break
		}
	}
	h := 3 + 20*r.Float64()
	rot := AxisAngle(RandomDir(r), 0)
	if r.Intn(2) == 0 {
		rot = AxisAngle(V3{r.NormFloat64(), r.NormFloat64(), 0.1}.Unit(), 55*r.Float64())
	}
	inv := r.Intn(2) == 0
	put := func(p V3) V3 {
		if inv {
			p = V3{p[0], -p[1], -p[2]}
		}
		return rot.Apply(p)
	}
	d = V3{0, 0, 1}
	if r.Intn(3) == 0 {
		t := RandomRot(r)
		d = t.Apply(d)
		q := put
		put = func(p V3) V3 { return t.Apply(q(p)) }
	}
	k := len(poly)
	m = &IMesh{Name: "a prism with vertices near the planes"}
	add := func(p V3) int { m.V = append(m.V, put(p)); return len(m.V) - 1 }
	var base []V3
	for _, z := range []float64{0, h} {
		for _, p := range poly {
			base = append(base, V3{p[0], p[1], z})
			add(base[len(base)-1])
		}
	}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range m.V {
		lo, hi = math.Min(lo, v.Dot(d)), math.Max(hi, v.Dot(d))
	}
	delta := func() float64 {
		x := minD * math.Pow(4e-6/minD, r.Float64())
		if r.Intn(2) == 0 {
			return -x
		}
		return x
	}
	// points of the segment that are near to planes, from a to b
	along := func(a, b V3, max int) []V3 {
		ha, hb := put(a).Dot(d), put(b).Dot(d)
		var ts []float64
		if math.Abs(hb-ha) > 0.5 {
			for j := r.Intn(max + 1); j > 0; j-- {
				z := lo + (float64(r.Intn(n))+0.5)*(hi-lo)/float64(n)
				for q := fewOf(r); q > 0; q-- {
					if t := (z + delta() - ha) / (hb - ha); t > 0.02 && t < 0.98 {
						ts = append(ts, t)
					}
				}
			}
		}
		sort.Float64s(ts)
		var out []V3
		for i, t := range ts {
			if i == 0 || t-ts[i-1] > 1e-8 {
				out = append(out, a.Lerp(b, t))
			}
		}
		return out
	}
	edges := make([][]int, k)
	for i, p := range poly {
		for _, q := range along(V3{p[0], p[1], 0}, V3{p[0], p[1], h}, 3) {
			edges[i] = append(edges[i], add(q))
		}
	}
	bot, top := add(V3{0, 0, 0}), add(V3{0, 0, h})
	for i := range poly {
		j := (i + 1) % k
		// points on the edges of the bottom and of the top
		side := func(from, to int) []int {
			ids := []int{from}
			var ts []float64
			for q := r.Intn(8); q > 0; q-- {
				ts = append(ts, 0.05+0.9*r.Float64())
			}
			sort.Float64s(ts)
			for _, t := range ts {
				ids = append(ids, add(base[from].Lerp(base[to], t)))
			}
			return append(ids, to)
		}
		ring := side(i, j)
		for e := 1; e < len(ring); e++ {
			m.F = append(m.F, [3]int{bot, ring[e], ring[e-1]})
		}
		ring = append(ring, edges[j]...)
		upper := side(k+j, k+i)
		for e := 1; e < len(upper); e++ {
			m.F = append(m.F, [3]int{top, upper[e], upper[e-1]})
		}
		ring = append(ring, upper...)
		for e := len(edges[i]) - 1; e >= 0; e-- {
			ring = append(ring, edges[i][e])
		}
		// the centre of the fan is on a line from the bottom to the top
		s := 0.2 + 0.6*r.Float64()
		a := V3{poly[i][0], poly[i][1], 0}.Lerp(V3{poly[j][0], poly[j][1], 0}, s)
		b := a.Add(V3{0, 0, h})
		c := a.Lerp(b, 0.2+0.6*r.Float64())
		if cs := along(a, b, 1); len(cs) > 0 {
			c = cs[0]
		}
		ci := add(c)
		for e := range ring {
			m.F = append(m.F, [3]int{ci, ring[e], ring[(e+1)%len(ring)]})
		}
	}
	return m, d
}

func fewOf(r *rand.Rand) int {
	if r.Intn(2) == 0 {
		return 1
	}
	return 1 + r.Intn(5)
}
