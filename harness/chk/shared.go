package chk

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"verif/geo"
	"verif/run"

	. "github.com/l1va/goosli/primitives"

	"github.com/l1va/goosli/gcode"
)

func rndV(r *rand.Rand, lim float64) geo.V3 {
	return geo.V3{lim * (2*r.Float64() - 1), lim * (2*r.Float64() - 1), lim * (2*r.Float64() - 1)}
}

func vstr(v geo.V3) string { return "(" + fdot(v[0]) + " " + fdot(v[1]) + " " + fdot(v[2]) + ")" }

// frame puts a polygon in a plane: u, v, n=u x v
type frame struct{ o, u, v, n geo.V3 }

func reversed(p []geo.P2) []geo.P2 {
	out := make([]geo.P2, len(p))
	for i := range p {
		out[len(p)-1-i] = p[i]
	}
	return out
}

func randFrame(r *rand.Rand, lim float64) frame {
	o := geo.V3{lim * (2*r.Float64() - 1), lim * (2*r.Float64() - 1), lim * (2*r.Float64() - 1)}
	switch r.Intn(6) {
	case 5: // parallel to X or Y, tilted to the others (or to no axis but that)
		a := r.Float64() * 2 * math.Pi
		co, si := math.Cos(a), math.Sin(a)
		if r.Intn(2) == 0 {
			return frame{o, geo.V3{1, 0, 0}, geo.V3{0, co, si}, geo.V3{0, -si, co}}
		}
		return frame{o, geo.V3{si, 0, co}, geo.V3{0, 1, 0}, geo.V3{-co, 0, si}}
	case 0, 1:
		return frame{o, geo.V3{1, 0, 0}, geo.V3{0, 1, 0}, geo.V3{0, 0, 1}}
	case 2: // vertical
		a := r.Float64() * 2 * math.Pi
		if r.Intn(2) == 0 {
			a = float64(r.Intn(4)) * math.Pi / 2
		}
		u := geo.V3{math.Round(math.Cos(a)*1e15) / 1e15, math.Round(math.Sin(a)*1e15) / 1e15, 0}
		return frame{o, u, geo.V3{0, 0, 1}, u.Cross(geo.V3{0, 0, 1})}
	}
	q := geo.RandomRot(r)
	return frame{o, q.Apply(geo.V3{1, 0, 0}), q.Apply(geo.V3{0, 1, 0}), q.Apply(geo.V3{0, 0, 1})}
}

// 1 - has to be marked, 0 - not, -1 - too close to the limit to tell
func overhang(t [3]geo.V3, angle float64, dir geo.V3) int {
	n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
	w := dir.Mul(-1)
	a := math.Atan2(n.Cross(w).Len(), n.Dot(w)) * 180 / math.Pi
	if math.Abs(a-(90-angle)) < 5e-6 || !(n.Len() > 0) {
		return -1
	}
	if a < 90-angle {
		return 1
	}
	return 0
}

func (f frame) at(p geo.P2) geo.V3 { return f.o.Add(f.u.Mul(p[0])).Add(f.v.Mul(p[1])) }

func (f frame) loop(p []geo.P2) []geo.V3 {
	var out []geo.V3
	for _, q := range p {
		out = append(out, f.at(q))
	}
	return out
}

type posedLayer struct {
	l    Layer
	pose poseOf
}

// posedLayers gives all layers of a print with the pose of the bed replayed from its g-code.
func posedLayers(c *run.Case, g *gcode.Gcode, what string) (out []posedLayer, moves int) {
	evs := checkMarkers(c, gcodeText(g), g.LayerCount(), what)
	var all []Layer
	for _, ls := range layersOf(g) {
		all = append(all, ls...)
	}
	bed := poseOf{}
	for _, e := range evs {
		switch e.kind {
		case evBed:
			bed = poseOf{e.phys[1], e.phys[2]}
			moves++
		case evG62:
			bed = poseOf{e.g62[1], e.g62[0]}
			moves++
		case evLayer:
			if len(out) < len(all) {
				out = append(out, posedLayer{all[len(out)], bed})
			}
		}
	}
	c.Check(len(out) == len(all), "%s: %d markers for %d layers", what, len(out), len(all))
	return
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("lengths %d and %d, first difference at %d: %q and %q", len(a), len(b), i, cut(a), cut(b))
}

// dump of layers that is equal only for bitwise equal layers
func dumpLayers(ls []Layer) string {
	var b strings.Builder
	ps := func(n string, p []Path) {
		fmt.Fprintf(&b, "%s%d:", n, len(p))
		for _, q := range p {
			for _, x := range q.Points {
				fmt.Fprintf(&b, "%x %x %x;", x.X, x.Y, x.Z)
			}
			b.WriteByte('|')
		}
		b.WriteByte('\n')
	}
	for _, l := range ls {
		fmt.Fprintf(&b, "L%d %v\n", l.Order, l.Norm)
		ps("P", l.Paths)
		ps("M", l.MiddlePs)
		ps("I", l.InnerPs)
		ps("F", l.Fill)
	}
	return b.String()
}

func tailOf(s string) string {
	if len(s) > 40 {
		return s[len(s)-40:]
	}
	return s
}

func randFacets(r *rand.Rand, n int) [][3]geo.V3 {
	out := make([][3]geo.V3, n)
	for i := range out {
		for v := range out[i] {
			for k := range out[i][v] {
				out[i][v][k] = randFloat32(r)
			}
		}
		if i > 0 && r.Intn(4) == 0 {
			out[i][r.Intn(3)] = out[i-1][r.Intn(3)]
		}
		if i > 0 && r.Intn(30) == 0 {
			out[i] = out[i-1] // repeated facet
		}
		if r.Intn(10) == 0 { // a corner of something on the bed
			for v := range out[i] {
				for k := range out[i][v] {
					out[i][v][k] = float64(r.Intn(10) * r.Intn(3))
				}
			}
		}
	}
	return out
}
