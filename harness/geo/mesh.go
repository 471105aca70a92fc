package geo

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
)

// IMesh is an indexed triangle mesh; generators only produce watertight,
// outward-oriented ones (checked by Watertight in the harness's self test).
type IMesh struct {
	Name string
	V    []V3
	F    [][3]int
}

func (m *IMesh) Tris() [][3]V3 {
	out := make([][3]V3, len(m.F))
	for i, f := range m.F {
		out[i] = [3]V3{m.V[f[0]], m.V[f[1]], m.V[f[2]]}
	}
	return out
}

func (m *IMesh) Volume() float64 { return TrisVolume(m.Tris()) }

func TrisVolume(ts [][3]V3) float64 {
	s, c := 0.0, 0.0
	if len(ts) == 0 {
		return 0
	}
	o := ts[0][0]
	for _, t := range ts { // Kahan summation around a local origin
		y := t[0].Sub(o).Dot(t[1].Sub(o).Cross(t[2].Sub(o)))/6 - c
		n := s + y
		c = (n - s) - y
		s = n
	}
	return s
}

// AreaVector is the sum of the triangles' area vectors; zero for a closed surface.
func AreaVector(ts [][3]V3) V3 {
	var s V3
	for _, t := range ts {
		s = s.Add(t[1].Sub(t[0]).Cross(t[2].Sub(t[0])).Mul(0.5))
	}
	return s
}

func (m *IMesh) Bounds() (lo, hi V3) {
	lo = V3{math.Inf(1), math.Inf(1), math.Inf(1)}
	hi = lo.Mul(-1)
	for _, f := range m.F {
		for _, i := range f {
			for k := 0; k < 3; k++ {
				lo[k] = math.Min(lo[k], m.V[i][k])
				hi[k] = math.Max(hi[k], m.V[i][k])
			}
		}
	}
	return
}

func (m *IMesh) MinMax(n V3) (float64, float64) {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, f := range m.F {
		for _, i := range f {
			d := m.V[i].Dot(n)
			lo, hi = math.Min(lo, d), math.Max(hi, d)
		}
	}
	return lo, hi
}

func (m *IMesh) Map(f func(V3) V3) *IMesh {
	o := &IMesh{Name: m.Name, V: make([]V3, len(m.V)), F: append([][3]int(nil), m.F...)}
	for i, v := range m.V {
		o.V[i] = f(v)
	}
	return o
}

func (m *IMesh) Round32() *IMesh {
	return m.Map(func(v V3) V3 {
		return V3{float64(float32(v[0])), float64(float32(v[1])), float64(float32(v[2]))}
	})
}

func (m *IMesh) Translate(d V3) *IMesh { return m.Map(func(v V3) V3 { return v.Add(d) }) }
func (m *IMesh) Rotate(r Rot) *IMesh   { return m.Map(r.Apply) }
func (m *IMesh) Scale(s V3) *IMesh {
	return m.Map(func(v V3) V3 { return V3{v[0] * s[0], v[1] * s[1], v[2] * s[2]} })
}

// Flip reverses every face.
func (m *IMesh) Flip() *IMesh {
	o := &IMesh{Name: m.Name + "~", V: m.V}
	for _, f := range m.F {
		o.F = append(o.F, [3]int{f[0], f[2], f[1]})
	}
	return o
}

// Shuffle permutes the faces and rotates the vertex order within each face.
func (m *IMesh) Shuffle(r *rand.Rand) *IMesh {
	o := &IMesh{Name: m.Name, V: m.V, F: append([][3]int(nil), m.F...)}
	r.Shuffle(len(o.F), func(i, j int) { o.F[i], o.F[j] = o.F[j], o.F[i] })
	for i := range o.F {
		for k := r.Intn(3); k > 0; k-- {
			f := o.F[i]
			o.F[i] = [3]int{f[1], f[2], f[0]}
		}
	}
	return o
}

func Union(ms ...*IMesh) *IMesh {
	o := &IMesh{}
	for i, m := range ms {
		if i > 0 {
			o.Name += "+"
		}
		o.Name += m.Name
		b := len(o.V)
		o.V = append(o.V, m.V...)
		for _, f := range m.F {
			o.F = append(o.F, [3]int{f[0] + b, f[1] + b, f[2] + b})
		}
	}
	return o
}

// Watertight reports whether every directed edge (by vertex position) is
// matched by its reverse, and no face is degenerate by position.
func (m *IMesh) Watertight() error {
	return TrisWatertight(m.Tris())
}

func TrisWatertight(ts [][3]V3) error {
	type e struct{ a, b V3 }
	n := map[e]int{}
	for i, t := range ts {
		if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
			return fmt.Errorf("face %d is degenerate: %v", i, t)
		}
		for k := 0; k < 3; k++ {
			n[e{t[k], t[(k+1)%3]}]++
		}
	}
	for k, v := range n {
		if n[e{k.b, k.a}] != v {
			return fmt.Errorf("edge %v-%v: %d forward, %d back", k.a, k.b, v, n[e{k.b, k.a}])
		}
		if v > 1 {
			return fmt.Errorf("edge %v-%v is used %d times", k.a, k.b, v)
		}
	}
	return nil
}

type P2 [2]float64

func polyArea(p []P2) float64 {
	s := 0.0
	for i := range p {
		j := (i + 1) % len(p)
		s += p[i][0]*p[j][1] - p[j][0]*p[i][1]
	}
	return s / 2
}

func cross2(a, b, c P2) float64 {
	return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
}

// earclip triangulates a simple counterclockwise polygon.
func earclip(p []P2) [][3]int {
	idx := make([]int, len(p))
	for i := range idx {
		idx[i] = i
	}
	var out [][3]int
	for len(idx) > 3 {
		best, bestQ := -1, -1.0
		for i := range idx {
			a, b, c := idx[(i+len(idx)-1)%len(idx)], idx[i], idx[(i+1)%len(idx)]
			ar := cross2(p[a], p[b], p[c])
			if ar <= 1e-12 {
				continue
			}
			ok := true
			for _, k := range idx {
				if k == a || k == b || k == c {
					continue
				}
				if cross2(p[a], p[b], p[k]) >= 0 && cross2(p[b], p[c], p[k]) >= 0 && cross2(p[c], p[a], p[k]) >= 0 {
					ok = false
					break
				}
			}
			if ok {
				l := math.Max(sq(p[a], p[b]), math.Max(sq(p[b], p[c]), sq(p[a], p[c])))
				if q := ar / l; q > bestQ {
					best, bestQ = i, q
				}
			}
		}
		if best < 0 {
			return nil
		}
		n := len(idx)
		out = append(out, [3]int{idx[(best+n-1)%n], idx[best], idx[(best+1)%n]})
		idx = append(idx[:best:best], idx[best+1:]...)
	}
	return append(out, [3]int{idx[0], idx[1], idx[2]})
}

func sq(a, b P2) float64 { return (a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1]) }

// Loft builds a solid from the polygon poly (counterclockwise, simple) placed
// on levels z[i], each with its own map. A level map must be injective and
// orientation preserving.
func Loft(name string, poly []P2, z []float64, at func(level int, p P2) P2) *IMesh {
	m := &IMesh{Name: name}
	n := len(poly)
	for l := range z {
		for _, p := range poly {
			q := at(l, p)
			m.V = append(m.V, V3{q[0], q[1], z[l]})
		}
	}
	for l := 0; l+1 < len(z); l++ {
		for i := 0; i < n; i++ {
			j := (i + 1) % n
			a, b, c, d := l*n+i, l*n+j, (l+1)*n+j, (l+1)*n+i
			if (i+l)%2 == 0 {
				m.F = append(m.F, [3]int{a, b, c}, [3]int{a, c, d})
			} else {
				m.F = append(m.F, [3]int{a, b, d}, [3]int{b, c, d})
			}
		}
	}
	t := earclip(poly)
	if t == nil {
		return nil
	}
	top := (len(z) - 1) * n
	for _, f := range t {
		m.F = append(m.F, [3]int{f[0], f[2], f[1]}, [3]int{top + f[0], top + f[1], top + f[2]})
	}
	return m
}

func Ident2(_ int, p P2) P2 { return p }

func Box(sx, sy, sz float64) *IMesh {
	return Loft("box", []P2{{0, 0}, {sx, 0}, {sx, sy}, {0, sy}}, []float64{0, sz}, Ident2)
}

func RegularPoly(n int, r, phase float64) []P2 {
	p := make([]P2, n)
	for i := range p {
		a := phase + 2*math.Pi*float64(i)/float64(n)
		p[i] = P2{r * math.Cos(a), r * math.Sin(a)}
	}
	return p
}

// StarPoly is a star-shaped polygon around the origin with random radii.
func StarPoly(r *rand.Rand, n int, lo, hi float64) []P2 {
	p := make([]P2, n)
	for i := range p {
		a := 2 * math.Pi * (float64(i) + 0.7*(r.Float64()-0.5)) / float64(n)
		q := lo + (hi-lo)*r.Float64()
		p[i] = P2{q * math.Cos(a), q * math.Sin(a)}
	}
	return p
}

// ConvexPoly: random points on an ellipse.
func ConvexPoly(r *rand.Rand, n int, rx, ry float64) []P2 {
	p := make([]P2, n)
	for i := range p {
		a := 2 * math.Pi * (float64(i) + 0.6*(r.Float64()-0.5)) / float64(n)
		p[i] = P2{rx * math.Cos(a), ry * math.Sin(a)}
	}
	return p
}

// NamedPoly: fixed nonconvex outlines in a box of about 10x10.
func NamedPoly(name string) []P2 {
	switch name {
	case "L":
		return []P2{{0, 0}, {10, 0}, {10, 4}, {4, 4}, {4, 10}, {0, 10}}
	case "U":
		return []P2{{0, 0}, {10, 0}, {10, 10}, {7, 10}, {7, 3}, {3, 3}, {3, 10}, {0, 10}}
	case "T":
		return []P2{{4, 0}, {6, 0}, {6, 7}, {10, 7}, {10, 10}, {0, 10}, {0, 7}, {4, 7}}
	case "plus":
		return []P2{{3, 0}, {7, 0}, {7, 3}, {10, 3}, {10, 7}, {7, 7}, {7, 10}, {3, 10}, {3, 7}, {0, 7}, {0, 3}, {3, 3}}
	case "comb":
		return []P2{{0, 0}, {10, 0}, {10, 10}, {9, 10}, {9, 2}, {8, 2}, {8, 10}, {7, 10}, {7, 2}, {6, 2}, {6, 10}, {5, 10}, {5, 2}, {4, 2}, {4, 10}, {3, 10}, {3, 2}, {2, 2}, {2, 10}, {0, 10}}
	}
	panic(name)
}

func Revolve(name string, prof []P2, n int) *IMesh {
	// prof: (r,z) from bottom to top, r>0 for all; caps are fans round an axis vertex
	m := &IMesh{Name: name}
	for _, q := range prof {
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * (float64(i) + 0.137) / float64(n)
			m.V = append(m.V, V3{q[0] * math.Cos(a), q[0] * math.Sin(a), q[1]})
		}
	}
	for l := 0; l+1 < len(prof); l++ {
		for i := 0; i < n; i++ {
			j := (i + 1) % n
			a, b, c, d := l*n+i, l*n+j, (l+1)*n+j, (l+1)*n+i
			m.F = append(m.F, [3]int{a, b, c}, [3]int{a, c, d})
		}
	}
	bot := len(m.V)
	m.V = append(m.V, V3{0, 0, prof[0][1]}, V3{0, 0, prof[len(prof)-1][1]})
	top := (len(prof) - 1) * n
	for i := 0; i < n; i++ {
		j := (i + 1) % n
		m.F = append(m.F, [3]int{bot, j, i}, [3]int{bot + 1, top + i, top + j})
	}
	return m
}

func Torus(R, r float64, n, k int) *IMesh {
	m := &IMesh{Name: "torus"}
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * (float64(i) + 0.21) / float64(n)
		for j := 0; j < k; j++ {
			b := 2 * math.Pi * (float64(j) + 0.37) / float64(k)
			q := R + r*math.Cos(b)
			m.V = append(m.V, V3{q * math.Cos(a), q * math.Sin(a), r * math.Sin(b)})
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			i2, j2 := (i+1)%n, (j+1)%k
			a, b, c, d := i*k+j, i2*k+j, i2*k+j2, i*k+j2
			m.F = append(m.F, [3]int{a, b, c}, [3]int{a, c, d})
		}
	}
	return m
}

// Ring is a prism with one hole: outer and inner outlines have equal length.
func Ring(name string, outer, inner []P2, h float64) *IMesh {
	n := len(outer)
	m := &IMesh{Name: name}
	for _, z := range []float64{0, h} {
		for _, p := range outer {
			m.V = append(m.V, V3{p[0], p[1], z})
		}
		for _, p := range inner {
			m.V = append(m.V, V3{p[0], p[1], z})
		}
	}
	o0, i0, o1, i1 := 0, n, 2*n, 3*n
	for i := 0; i < n; i++ {
		j := (i + 1) % n
		q := func(a, b, c, d int) { m.F = append(m.F, [3]int{a, b, c}, [3]int{a, c, d}) }
		q(o0+i, o0+j, o1+j, o1+i) // outer wall
		q(i0+j, i0+i, i1+i, i1+j) // inner wall
		q(o1+i, o1+j, i1+j, i1+i) // top
		q(o0+j, o0+i, i0+i, i0+j) // bottom
	}
	return m
}

// Ball is a subdivided octahedron pushed onto radius f(direction).
func Ball(name string, depth int, f func(V3) float64) *IMesh {
	m := &IMesh{Name: name, V: []V3{{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}}}
	m.F = [][3]int{{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}}
	for ; depth > 0; depth-- {
		mid := map[[2]int]int{}
		get := func(a, b int) int {
			if a > b {
				a, b = b, a
			}
			if k, ok := mid[[2]int{a, b}]; ok {
				return k
			}
			m.V = append(m.V, m.V[a].Add(m.V[b]).Unit())
			mid[[2]int{a, b}] = len(m.V) - 1
			return len(m.V) - 1
		}
		var nf [][3]int
		for _, t := range m.F {
			a, b, c := get(t[0], t[1]), get(t[1], t[2]), get(t[2], t[0])
			nf = append(nf, [3]int{t[0], a, c}, [3]int{a, t[1], b}, [3]int{c, b, t[2]}, [3]int{a, b, c})
		}
		m.F = nf
	}
	for i, v := range m.V {
		u := v.Unit()
		m.V[i] = u.Mul(f(u))
	}
	return m
}

// Tube is a closed pipe swept along spine with a regular k-gon of radius rad.
func Tube(name string, spine []V3, rad func(i int) float64, k int) *IMesh {
	m := &IMesh{Name: name}
	n := len(spine)
	up := V3{0.123, 0.9, 0.31}.Unit()
	for i, c := range spine {
		var d V3
		switch {
		case i == 0:
			d = spine[1].Sub(spine[0]).Unit()
		case i == n-1:
			d = spine[n-1].Sub(spine[n-2]).Unit()
		default:
			d = spine[i+1].Sub(spine[i]).Unit().Add(spine[i].Sub(spine[i-1]).Unit()).Unit()
		}
		x := up.Sub(d.Mul(up.Dot(d))).Unit() // parallel transport of the frame
		y := d.Cross(x)
		up = x
		for j := 0; j < k; j++ {
			a := 2 * math.Pi * (float64(j) + 0.11) / float64(k)
			m.V = append(m.V, c.Add(x.Mul(rad(i)*math.Cos(a))).Add(y.Mul(rad(i)*math.Sin(a))))
		}
	}
	for i := 0; i+1 < n; i++ {
		for j := 0; j < k; j++ {
			j2 := (j + 1) % k
			a, b, c, d := i*k+j, i*k+j2, (i+1)*k+j2, (i+1)*k+j
			m.F = append(m.F, [3]int{a, b, c}, [3]int{a, c, d})
		}
	}
	for j := 1; j+1 < k; j++ {
		m.F = append(m.F, [3]int{0, j + 1, j}, [3]int{(n - 1) * k, (n-1)*k + j, (n-1)*k + j + 1})
	}
	return m
}

// Terrain is a height-field solid on a g x g grid.
func Terrain(r *rand.Rand, g int, size, base, amp float64) *IMesh {
	m := &IMesh{Name: "terrain"}
	id := func(i, j, top int) int { return (i*(g+1)+j)*2 + top }
	for i := 0; i <= g; i++ {
		for j := 0; j <= g; j++ {
			x, y := size*float64(i)/float64(g), size*float64(j)/float64(g)
			m.V = append(m.V, V3{x, y, 0}, V3{x, y, base + amp*r.Float64()})
		}
	}
	for i := 0; i < g; i++ {
		for j := 0; j < g; j++ {
			a, b, c, d := id(i, j, 1), id(i+1, j, 1), id(i+1, j+1, 1), id(i, j+1, 1)
			m.F = append(m.F, [3]int{a, b, c}, [3]int{a, c, d})
			m.F = append(m.F, [3]int{a - 1, c - 1, b - 1}, [3]int{a - 1, d - 1, c - 1})
		}
	}
	side := func(a, b int) { // a->b walks counterclockwise seen from above
		m.F = append(m.F, [3]int{a - 1, b - 1, b}, [3]int{a - 1, b, a})
	}
	for k := 0; k < g; k++ {
		side(id(k, 0, 1), id(k+1, 0, 1))
		side(id(g, k, 1), id(g, k+1, 1))
		side(id(k+1, g, 1), id(k, g, 1))
		side(id(0, k+1, 1), id(0, k, 1))
	}
	return m
}

// Hull is the convex hull of n random points (brute force, n small).
func Hull(r *rand.Rand, n int, s V3) *IMesh {
	m := &IMesh{Name: "hull"}
	for i := 0; i < n; i++ {
		v := V3{r.NormFloat64(), r.NormFloat64(), r.NormFloat64()}.Unit()
		m.V = append(m.V, V3{v[0] * s[0], v[1] * s[1], v[2] * s[2]})
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for k := j + 1; k < n; k++ {
				nn := m.V[j].Sub(m.V[i]).Cross(m.V[k].Sub(m.V[i]))
				pos, neg := 0, 0
				for l := 0; l < n; l++ {
					if l == i || l == j || l == k {
						continue
					}
					if nn.Dot(m.V[l].Sub(m.V[i])) > 0 {
						pos++
					} else {
						neg++
					}
				}
				if pos == 0 {
					m.F = append(m.F, [3]int{i, j, k})
				} else if neg == 0 {
					m.F = append(m.F, [3]int{i, k, j})
				}
			}
		}
	}
	return m
}

// Subdivide splits every face in four at its edge midpoints.
func (m *IMesh) Subdivide() *IMesh {
	o := &IMesh{Name: m.Name + "/4", V: append([]V3(nil), m.V...)}
	mid := map[[2]int]int{}
	get := func(a, b int) int {
		if a > b {
			a, b = b, a
		}
		if k, ok := mid[[2]int{a, b}]; ok {
			return k
		}
		o.V = append(o.V, m.V[a].Add(m.V[b]).Mul(0.5))
		mid[[2]int{a, b}] = len(o.V) - 1
		return len(o.V) - 1
	}
	for _, t := range m.F {
		a, b, c := get(t[0], t[1]), get(t[1], t[2]), get(t[2], t[0])
		o.F = append(o.F, [3]int{t[0], a, c}, [3]int{a, t[1], b}, [3]int{c, b, t[2]}, [3]int{a, b, c})
	}
	return o
}

// SortedHeights are the distinct projections of the vertices on n.
func (m *IMesh) SortedHeights(n V3) []float64 {
	h := make([]float64, 0, len(m.V))
	for _, v := range m.V {
		h = append(h, v.Dot(n))
	}
	sort.Float64s(h)
	return h
}

// NearestHeight is the smallest distance from z to an element of sorted h.
func NearestHeight(h []float64, z float64) float64 {
	i := sort.SearchFloat64s(h, z)
	d := math.Inf(1)
	if i < len(h) {
		d = h[i] - z
	}
	if i > 0 {
		d = math.Min(d, z-h[i-1])
	}
	return d
}

// Folded: do two neighbour facets look (nearly) in opposite directions, or is a facet nearly of no area.
func (m *IMesh) Folded() bool {
	type e struct{ a, b V3 }
	n := map[e]V3{}
	ts := m.Tris()
	for _, t := range ts {
		c := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
		if c.Len() < 1e-3 {
			return true
		}
		for k := 0; k < 3; k++ {
			n[e{t[k], t[(k+1)%3]}] = c.Unit()
		}
	}
	for k, v := range n {
		if v.Dot(n[e{k.b, k.a}]) < -0.99 {
			return true
		}
	}
	return false
}
