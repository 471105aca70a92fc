package chk

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"verif/geo"
	"verif/run"

	. "github.com/l1va/goosli/primitives"
)

func init() {
	run.Register(&run.Property{ID: "C01", Level: "exploration", Quick: 12000, Full: 400000, Min: 6000, External: true,
		Must: []string{"binary files loaded", "ascii files loaded", "files saved", "facets compared", "round trips through a command", "empty meshes", "fewer facets than CPUs", "normals in files"},
		Rule: "a case is a random facet list (0..20000 facets, counts around multiples of the number of CPUs, coordinates of all magnitudes) in one of: a saved file, a foreign binary file, an ascii file in a random layout, a pass through goosli_simplifier or goosli_cutter on a random number of CPUs; distinct by facets and form",
		Run:  c01})
	run.Register(&run.Property{ID: "C02", Level: "fault_enumeration", Quick: 1500, Full: 40000, Min: 700, External: true,
		Must: []string{"save faults injected", "saves that succeeded", "truncated binary files", "extended binary files", "truncated ascii files", "ascii files without a vertex", "commands with a failing output", "commands with a damaged input"},
		Rule: "a case is a mesh and a list of faults: every file size limit (all offsets of small files, all offsets around multiples of the buffer and random ones of big files), every truncation length of a small binary file, random cuts of ascii files, commands writing to a full device, to a missing directory or reading a damaged file; distinct by mesh and faults",
		Run:  c02})
}

func randFloat32(r *rand.Rand) float64 {
	for {
		var f float32
		switch r.Intn(7) {
		case 0:
			f = float32(r.Intn(201) - 100)
		case 1:
			f = float32(math.Pow(10, 40*r.Float64()-20) * (2*r.Float64() - 1))
		case 2:
			f = float32(math.Copysign(0, -1))
		case 3:
			f = math.Float32frombits(r.Uint32())
		default:
			f = float32(200*r.Float64() - 100)
		}
		if x := float64(f); !math.IsNaN(x) && math.Abs(x) < 1e17 {
			return x
		}
	}
}

func facetCount(r *rand.Rand, big bool) int {
	switch r.Intn(6) {
	case 0:
		return r.Intn(4)
	case 1:
		return r.Intn(20)
	case 2:
		k := run.Pick(r, 2, 3, 4, 6, 8, 16)
		return k*(1+r.Intn(4)) + r.Intn(3) - 1
	case 3:
		if big {
			return run.Pick(r, 500+r.Intn(20000), 500+r.Intn(20000), 65530+r.Intn(60000))
		}
	}
	return r.Intn(300)
}

// exact normal of a facet as (v2-v1)x(v3-v1)
func checkFacets(c *run.Case, what string, m *Mesh, want [][3]geo.V3, ulps float64) {
	c.Check(m != nil, "%s: no mesh", what)
	c.Check(len(m.Triangles) == len(want), "%s: %d facets, has to be %d", what, len(m.Triangles), len(want))
	for i, t := range m.Triangles {
		got := [3]geo.V3{v3(t.P1), v3(t.P2), v3(t.P3)}
		for v := range got {
			for k := range got[v] {
				w := want[i][v][k]
				tol := ulps * math.Max(math.Abs(w)*math.Pow(2, -23), 1e-45)
				if !(math.Abs(got[v][k]-w) <= tol) {
					c.Fail("%s: facet %d of %d: vertex %d is %v, has to be %v", what, i, len(want), v, got[v], want[i][v])
				}
			}
		}
		a, b := got[1].Sub(got[0]), got[2].Sub(got[0])
		n := a.Cross(b)
		// rounding of a cross product and of the differences of big coordinates
		size := got[0].Len() + got[1].Len() + got[2].Len()
		tol := 1e-13*size*size + 1e-300
		c.Check(vv3(t.N).Dist(n) <= tol, "%s: facet %d %v: normal is %v, has to be %v", what, i, got, t.N, n)
	}
	c.Event("facets compared", len(want))
}

func asciiSTL(r *rand.Rand, ts [][3]geo.V3, several bool) string {
	var b strings.Builder
	nl := run.Pick(r, "\n", "\r\n")
	ind := run.Pick(r, "", " ", "  ", "\t")
	name := run.Pick(r, "", "object", "part 1", "vertex of a thing", "facet", "Exported from X (v1.2)")
	plain := r.Intn(4) == 0 // the shortest lines that are possible
	if plain {
		ind = run.Pick(r, "", "", ind)
	}
	num := func(x float64) string {
		f := float32(x)
		if plain {
			return strconv.FormatFloat(float64(f), 'g', -1, 32)
		}
		switch r.Intn(6) {
		case 0:
			return strconv.FormatFloat(x, 'e', 9+r.Intn(8), 64)
		case 1:
			return strings.ToUpper(strconv.FormatFloat(x, 'e', 12, 64))
		case 2:
			if x > 0 {
				return "+" + strconv.FormatFloat(float64(f), 'g', 9, 32)
			}
		case 3:
			if math.Abs(x) > 1e-4 {
				return strconv.FormatFloat(x, 'f', 15, 64)
			}
		}
		return strconv.FormatFloat(float64(f), 'g', -1, 32)
	}
	sep := func() string {
		if plain {
			return " "
		}
		return run.Pick(r, " ", " ", " ", "  ", "\t")
	}
	b.WriteString("solid " + name + nl)
	for i, t := range ts {
		if several && i > 0 && r.Intn(60) == 0 {
			b.WriteString("endsolid " + name + nl + "solid second" + nl)
		}
		n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0])).Unit()
		b.WriteString(ind + fmt.Sprintf("facet normal %g %g %g", n[0], n[1], n[2]) + nl)
		b.WriteString(ind + ind + "outer loop" + nl)
		for _, v := range t {
			b.WriteString(ind + ind + ind + "vertex" + sep() + num(v[0]) + sep() + num(v[1]) + sep() + num(v[2]))
			if r.Intn(10) == 0 {
				b.WriteString(" ")
			}
			b.WriteString(nl)
		}
		b.WriteString(ind + ind + "endloop" + nl + ind + "endfacet" + nl)
		if r.Intn(30) == 0 {
			b.WriteString(nl)
		}
	}
	b.WriteString("endsolid " + name)
	if r.Intn(3) > 0 {
		b.WriteString(nl)
	}
	return b.String()
}

func c01(c *run.Case) {
	form := c.I % 8
	big := c.R.Intn(15) == 0
	n := facetCount(c.R, big)
	if form == 3 || form == 4 { // a file of less than 84 bytes can not be told from a damaged one
		n++
	}
	if n == 0 {
		c.Event("empty meshes", 1)
	}
	if n < 8 {
		c.Event("fewer facets than CPUs", 1)
	}
	ts := randFacets(c.R, n)
	c.Distinct("%d %v %v", form, n, ts)
	c.Sample("form %d, %d facets", form, n)
	f := filepath.Join(c.Tmp(), run.Pick(c.R, "a.stl", "name with space.STL", "x"))
	saved := func(what, f string, want [][3]geo.V3) {
		b, err := os.ReadFile(f)
		must(err)
		got, err := parseSTL(b)
		c.Check(err == nil, "%s: %v", what, err)
		c.Check(len(got) == len(want), "%s: file has %d facets of %d", what, len(got), len(want))
		for i := range got {
			c.Check(got[i] == want[i], "%s: facet %d of %d is %v in the file, has to be %v", what, i, len(want), got[i], want[i])
			t := want[i]
			n := t[1].Sub(t[0]).Cross(t[2].Sub(t[0]))
			size := math.Max(t[0].Len(), math.Max(t[1].Len(), t[2].Len()))
			if l := n.Len(); l > 1e-4*size*size && l > 1e-30 && l < 1e30 {
				var nf geo.V3
				for k := range nf {
					nf[k] = float64(math.Float32frombits(binary.LittleEndian.Uint32(b[84+50*i+4*k:])))
				}
				c.Check(nf.Len() > 0 && nf.Mul(1/nf.Len()).Dist(n.Mul(1/l)) < 1e-2, "%s: facet %d of %d %v has the normal %v in the file, has to be along %v", what, i, len(want), t, nf, n)
				c.Event("normals in files", 1)
			}
		}
		c.Event("files saved", 1)
		c.Event("facets compared", len(want))
	}
	switch form {
	case 0, 1, 5: // save: what is in the file, then load it
		if form == 1 { // coordinates that are not float32
			for i := range ts {
				for v := range ts[i] {
					for k := range ts[i][v] {
						ts[i][v][k] *= 1 + c.R.Float64()*1e-7
					}
				}
			}
		}
		var list []Triangle
		for _, t := range ts {
			list = append(list, NewTriangle(pt(t[0]), pt(t[1]), pt(t[2])))
		}
		m := NewMesh(list)
		if c.R.Intn(3) == 0 { // the file is there and is longer
			must(os.WriteFile(f, make([]byte, 84+50*(n+1+c.R.Intn(20))+c.R.Intn(10)), 0644))
		}
		before := copyMesh(&m)
		err := SaveSTL(f, &m)
		c.Check(err == nil, "save: %v", err)
		c.Check(sameMesh(before, &m), "save modifies the mesh")
		saved("saved file", f, round32(ts))
		l, err := LoadSTL(f)
		c.Check(err == nil, "load of a saved file: %v", err)
		checkFacets(c, "saved and loaded", l, round32(ts), 0)
		c.Event("binary files loaded", 1)
		if form == 5 { // once more over the same file
			c.Check(SaveSTL(f, l) == nil, "second save failed")
			saved("saved again", f, round32(ts))
		}
	case 2, 6: // foreign binary
		b := stlBytes(ts)
		c.R.Read(b[:80])
		if c.R.Intn(2) == 0 {
			copy(b, "solid binary with a text header\nfacet normal 0 0 1\n")
		}
		for i := range ts {
			c.R.Read(b[84+50*i+48 : 84+50*i+50]) // attributes
			if c.R.Intn(3) == 0 {
				for k := 0; k < 12; k++ { // some programs write zero normals
					b[84+50*i+k] = 0
				}
			}
		}
		must(os.WriteFile(f, b, 0644))
		l, err := LoadSTL(f)
		c.Check(err == nil, "load of a binary file with %d facets: %v", n, err)
		checkFacets(c, "loaded binary", l, ts, 0)
		c.Event("binary files loaded", 1)
	case 3, 4:
		text := asciiSTL(c.R, ts, true)
		must(os.WriteFile(f, []byte(text), 0644))
		l, err := LoadSTL(f)
		c.Check(err == nil, "load of an ascii file with %d facets: %v", n, err)
		checkFacets(c, "loaded ascii", l, ts, 1)
		c.Event("ascii files loaded", 1)
	case 7: // through a command, on some of the CPUs
		if n > 3000 {
			ts = ts[:3000]
		}
		must(os.WriteFile(f, stlBytes(ts), 0644))
		o, o2 := filepath.Join(c.Tmp(), "o.stl"), filepath.Join(c.Tmp(), "o2.stl")
		cpus := run.Pick(c.R, "0", "0,1", "0-2", "0-4", "0-6", "")
		if c.R.Intn(2) == 0 {
			res := command(c, c.Tmp(), cpus, "goosli_simplifier", "-s", f, "-o", o, "-t", "1000000")
			c.Check(res.code == 0, "goosli_simplifier ends with %d: %s", res.code, res.text)
			saved("goosli_simplifier that has nothing to do, cpus "+cpus, o, ts)
		} else {
			res := command(c, c.Tmp(), cpus, "goosli_cutter", "-s", f, "-o", o, "-u", o2, "--pointz=-1e20")
			c.Check(res.code == 0, "goosli_cutter ends with %d: %s", res.code, res.text)
			// the cutter may put the facets in another order
			b, err := os.ReadFile(o)
			must(err)
			must(os.WriteFile(o, sortRecords(b), 0644))
			ts, err = parseSTL(sortRecords(stlBytes(ts)))
			must(err)
			saved("goosli_cutter with a plane below the mesh, cpus "+cpus, o, ts)
			saved("empty half", o2, nil)
		}
		c.Event("round trips through a command", 1)
	}
}

// sortRecords orders the facets of a binary file by their vertices.
func sortRecords(b []byte) []byte {
	if len(b) < 84 || (len(b)-84)%50 != 0 {
		return b
	}
	var rs []string
	for i := 84; i < len(b); i += 50 {
		rs = append(rs, string(b[i:i+50]))
	}
	key := func(r string) string { // -0 is 0
		k := ""
		for i := 12; i < 48; i += 4 {
			if v := r[i : i+4]; v != "\x00\x00\x00\x80" {
				k += v
			} else {
				k += "\x00\x00\x00\x00"
			}
		}
		return k
	}
	sort.SliceStable(rs, func(i, j int) bool { return key(rs[i]) < key(rs[j]) })
	return append(append([]byte(nil), b[:84]...), strings.Join(rs, "")...)
}

func withFileLimit(limit int64, f func()) {
	signal.Ignore(syscall.SIGXFSZ) // writing returns an error instead
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

func c02(c *run.Case) {
	f := filepath.Join(c.Tmp(), "a.stl")
	form := c.I % 6
	small := randFacets(c.R, 1+c.R.Intn(4))
	c.Distinct("%d %v", c.I%12, small)
	c.Sample("form %d, %d facets: %v...", form, len(small), small[0][0])
	refused := func(what string, b []byte) {
		must(os.WriteFile(f, b, 0644))
		m, err := LoadSTL(f)
		if err == nil {
			c.Fail("%s is loaded without an error as a mesh of %d facets", what, len(m.Triangles))
		}
	}
	switch form {
	case 0, 1: // file size limits
		ts := small
		if form == 1 {
			ts = randFacets(c.R, 60+c.R.Intn(400))
			if c.R.Intn(15) == 0 {
				ts = randFacets(c.R, 3000+c.R.Intn(5000))
				c.Event("large files", 1)
			}
		}
		size := int64(84 + 50*len(ts))
		var limits []int64
		if form == 0 {
			for l := int64(0); l <= size+1; l++ {
				limits = append(limits, l)
			}
		} else {
			for _, base := range []int64{0, 84, 4096, 8192, 12288, 16384, size} {
				for d := int64(-3); d <= 3; d++ {
					limits = append(limits, base+d)
				}
			}
			for k := 0; k < 60 && (len(ts) < 3000 || k < 8); k++ {
				limits = append(limits, c.R.Int63n(size+20))
			}
		}
		var list []Triangle
		for _, t := range ts {
			list = append(list, NewTriangle(pt(t[0]), pt(t[1]), pt(t[2])))
		}
		m := NewMesh(list)
		for _, l := range limits {
			if l < 0 {
				continue
			}
			os.Remove(f)
			var err error
			withFileLimit(l, func() { err = SaveSTL(f, &m) })
			b, _ := os.ReadFile(f)
			complete := false
			if got, e := parseSTL(b); e == nil && len(got) == len(ts) {
				complete = true
				for i := range got {
					complete = complete && got[i] == ts[i]
				}
			}
			if err == nil {
				c.Check(complete, "save of %d facets (%d bytes) with the file limited to %d bytes reports success, the file has %d bytes", len(ts), size, l, len(b))
				c.Event("saves that succeeded", 1)
			} else {
				c.Check(l < size, "save of %d bytes fails though %d are allowed: %v", size, l, err)
				c.Event("save faults injected", 1)
			}
		}
		for _, bad := range []string{"/dev/full", filepath.Join(c.Tmp(), "no", "such", "dir.stl"), c.Tmp()} {
			err := SaveSTL(bad, &m)
			c.Check(err != nil, "save of %d facets to %s reports success", len(ts), bad)
			c.Event("save faults injected", 1)
		}
	case 2: // truncated and extended binary files
		b := stlBytes(small)
		for k := 0; k < 80; k++ {
			b[k] = byte(32 + c.R.Intn(90))
		}
		if c.R.Intn(2) == 0 {
			copy(b, "solid something")
		}
		for l := 0; l < len(b); l++ {
			refused(fmt.Sprintf("binary file of %d facets cut to %d of %d bytes", len(small), l, len(b)), b[:l])
			c.Event("truncated binary files", 1)
		}
		for _, k := range []int{1, 2, 3, 49, 50, 51, 1000} {
			x := make([]byte, k)
			c.R.Read(x)
			for i := range x { // bytes that do not form lines of text
				x[i] |= 0x80
			}
			refused(fmt.Sprintf("binary file of %d facets with %d bytes left over", len(small), k), append(append([]byte(nil), b...), x...))
			c.Event("extended binary files", 1)
		}
		for _, n := range []uint32{0, uint32(len(small) - 1), uint32(len(small) + 1), 1 << 31, 1<<32 - 1, uint32(c.R.Int63n(1 << 32))} {
			if int(n) == len(small) {
				continue
			}
			x := append([]byte(nil), b...)
			binary.LittleEndian.PutUint32(x[80:], n)
			refused(fmt.Sprintf("binary file of %d facets with count %d in the header", len(small), n), x)
			c.Event("extended binary files", 1)
		}
	case 3: // cuts of an ascii file
		text := asciiSTL(c.R, small, false)
		last := strings.LastIndex(text, "endsolid")
		for l := 0; l < last+6; l++ {
			refused(fmt.Sprintf("ascii file of %d facets cut to %d of %d bytes (%q)", len(small), l, len(text), tailOf(text[:l])), []byte(text[:l]))
			c.Event("truncated ascii files", 1)
		}
		lines := strings.SplitAfter(text, "\n")
		for i, k := 0, 0; i < len(lines); i++ { // facets that have lost one or two of the vertices, with the end in place
			if !strings.HasPrefix(strings.TrimSpace(lines[i]), "vertex ") && !strings.HasPrefix(strings.TrimSpace(lines[i]), "vertex\t") {
				continue
			}
			refused(fmt.Sprintf("ascii file of %d facets without its %d-th vertex", len(small), k), []byte(strings.Join(lines[:i], "")+strings.Join(lines[i+1:], "")))
			if k%3 > 0 {
				refused(fmt.Sprintf("ascii file of %d facets without its %d-th and %d-th vertex", len(small), k-1, k), []byte(strings.Join(lines[:i-1], "")+strings.Join(lines[i+1:], "")))
			}
			c.Event("ascii files without a vertex", 1)
			k++
		}
	case 4: // outputs of commands
		m := geo.RandomSolid(c.R, run.Pick(c.R, 0, 1, 6, 7))
		lo, _ := m.Bounds()
		m = m.Translate(lo.Mul(-1))
		if c.R.Intn(4) == 0 {
			m = m.Subdivide().Subdivide()
		}
		in := writeSTL(c, m.Tris())
		d := cmdDir(c, ";head\n", ";foot\n")
		ok := filepath.Join(d, "fine.out")
		for _, bad := range []string{"/dev/full", filepath.Join(d, "no", "dir", "x"), filepath.Join(d, "data")} {
			for _, args := range [][]string{
				{"goosli_cutter", "-s", in, "-o", bad, "-u", ok, "--pointz=1"},
				{"goosli_cutter", "-s", in, "-o", ok, "-u", bad, "--pointz=1"},
				{"goosli_simplifier", "-s", in, "-o", bad, "-t", "50"},
				{"goosli_colorizer", "-s", in, "-o", bad},
				{"goosli_analyzer", "-s", in, "-o", bad},
				{"goosli", "-s", in, "-o", bad, "--slicing_type", "3axes", "--layer_height", "1"},
			} {
				if args[0] == "goosli_analyzer" && bad == "/dev/full" {
					// the result may be empty, nothing is written then
					if must2(analyzeEmpty(c, d, in)) {
						continue
					}
				}
				res := command(c, d, "", args[0], args[1:]...)
				c.Check(res.code != 0, "%v ends with status 0 though its output can not be written", args)
				c.Event("commands with a failing output", 1)
			}
		}
	case 5: // damaged inputs of commands
		m := geo.RandomSolid(c.R, run.Pick(c.R, 0, 1, 6))
		b := stlBytes(m.Tris())
		cut := b[:c.R.Intn(len(b)-1)]
		d := cmdDir(c, ";head\n", ";foot\n")
		in := filepath.Join(d, "bad.stl")
		what := fmt.Sprintf("a file cut to %d of %d bytes", len(cut), len(b))
		if c.R.Intn(4) > 0 {
			must(os.WriteFile(in, cut, 0644))
		} else {
			what = "a missing file"
		}
		for _, args := range [][]string{
			{"goosli_cutter", "-s", in, "-o", "o1", "-u", "o2"},
			{"goosli_simplifier", "-s", in, "-o", "o3"},
			{"goosli_colorizer", "-s", in, "-o", "o4"},
			{"goosli_analyzer", "-s", in, "-o", "o5"},
			{"goosli", "-s", in, "-o", "o6"},
		} {
			res := command(c, d, "", args[0], args[1:]...)
			c.Check(res.code != 0, "%v ends with status 0 for %s", args, what)
			c.Event("commands with a damaged input", 1)
		}
		must(os.WriteFile(in, b, 0644))
		for _, t := range []string{"header_template.txt", "footer_template.txt"} {
			must(os.Rename(filepath.Join(d, "data", t), filepath.Join(d, "data", t+"x")))
			res := command(c, d, "", "goosli", "-s", in, "-o", "o7", "--slicing_type", "3axes")
			c.Check(res.code != 0, "goosli ends with status 0 without %s", t)
			must(os.Rename(filepath.Join(d, "data", t+"x"), filepath.Join(d, "data", t)))
		}
		res := command(c, d, "", "goosli", "-s", in, "-o", "o8", "--slicing_type", "4axes")
		c.Check(res.code != 0, "goosli ends with status 0 for an unknown slicing type")
		res = command(c, d, "", "goosli", "-s", in, "-o", "o8", "--slicing_type", "3axes")
		c.Check(res.code == 0, "goosli ends with status %d for a good input: %s", res.code, res.text)
	}
}

func must2(b bool, err error) bool { must(err); return b }

// analyzeEmpty: does the analyzer suggest nothing for this model
func analyzeEmpty(c *run.Case, d, in string) (bool, error) {
	o := filepath.Join(d, "an.txt")
	res := command(c, d, "", "goosli_analyzer", "-s", in, "-o", o)
	c.Check(res.code == 0, "goosli_analyzer ends with %d: %s", res.code, res.text)
	b, err := os.ReadFile(o)
	return len(b) == 0, err
}
