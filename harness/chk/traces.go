//go:build !only || C28

package chk

import (
	"bytes"
	"fmt"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verif/geo"
	"verif/run"
)

func init() {
	run.Register(&run.Property{ID: "C28", Level: "exploration", Quick: 2000, Full: 60000, Min: 1200, External: true,
		Must: []string{"runs of goosli", "runs of goosli_cutter", "runs of goosli_colorizer", "runs of goosli_analyzer", "runs of goosli_simplifier", "files left as they were", "outputs compared", "outputs written over longer files", "lines of debugging", "runs with debugging", "runs without a configuration", "runs on one processor", "outputs with default names"},
		Rule: "a case is a command with options and inputs that runs several times in directories which differ in configuration, earlier outputs, way to name the files and number of processors; distinct by command and input",
		Run:  c28})
}

// treeOf is all files of a directory.
func treeOf(d string) map[string][]byte {
	m := map[string][]byte{}
	must(filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
		must(err)
		r, err := filepath.Rel(d, p)
		must(err)
		if e.IsDir() {
			m[r+"/"] = nil
			return nil
		}
		b, err := os.ReadFile(p)
		must(err)
		i, err := e.Info()
		must(err)
		m[r] = append([]byte(i.Mode().String()+"\n"), b...)
		return nil
	}))
	return m
}

func c28(c *run.Case) {
	r := c.R
	name := run.Pick(r, "goosli", "goosli", "goosli", "goosli", "goosli_cutter", "goosli_colorizer", "goosli_analyzer", "goosli_simplifier")
	m := placed(r, -1, 0)
	if name == "goosli" && r.Intn(2) == 0 {
		m, _ = leaning(r)
	}
	m = m.Round32()
	lo, hi := m.Bounds()
	stl := stlBytes(m.Tris())
	if r.Intn(4) == 0 {
		stl = []byte(asciiSTL(r, m.Tris(), false))
	}
	type out struct{ flag, def string }
	var outs []out
	var args []string
	planes := ""
	what := ""
	switch name {
	case "goosli":
		outs = []out{{"gcode", ""}}
		x := randOptions(c, r, math.Max(0.1, (hi[2]-lo[2])/(3+15*r.Float64())))
		mode := run.Pick(r, "3axes", "vip", "vip", "5axes", "5axes_by_profile")
		args = append(x.args, "--slicing_type="+mode)
		if mode == "vip" && r.Intn(2) == 0 {
			z := lo[2] + x.o[2] + (hi[2]-lo[2])*r.Float64()
			planes = fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%.3f\n", x.o[0], x.o[1], z, r.Intn(2) == 0, 360*r.Float64()-180)
		}
		what = mode
	case "goosli_cutter":
		outs = []out{{"out1", "out1.stl"}, {"out2", "out2.stl"}}
		p := lo.Lerp(hi, r.Float64())
		n := geo.RandomDir(r)
		args = []string{"--pointx=" + fdot15(p[0]), "--pointy=" + fdot15(p[1]), "--pointz=" + fdot15(p[2]), "--normali=" + fdot15(n[0]), "--normalj=" + fdot15(n[1]), "--normalk=" + fdot15(n[2])}
	case "goosli_colorizer":
		outs = []out{{"out", "colorize_triangles.bin"}}
		args = []string{"--angle=" + fdot15(math.Round(900*r.Float64())/10)}
	case "goosli_analyzer":
		outs = []out{{"out", "analyzed_planes.txt"}}
		args = []string{"--angle=" + fdot15(math.Round(600*r.Float64())/10)}
	case "goosli_simplifier":
		outs = []out{{"out", "out.stl"}}
		args = []string{"--triangles=" + itoa(run.Pick(r, 10, 50, 200, 100000))}
	}
	c.Distinct("%s %v %x", name, args, stl)
	c.Sample("%s %s %v of %s", name, what, args, m.Name)
	header := ";{layer_height} {origin} {x}\n;more\n"
	var first [][]byte
	runs := 2 + r.Intn(2)
	for k := 0; k < runs; k++ {
		d := cmdDir(c, header, ";end {bed_temperature}\n")
		must(os.WriteFile(filepath.Join(d, "data", "other.txt"), []byte("keep"), 0600))
		must(os.MkdirAll(filepath.Join(d, "a b", "c"), 0755))
		in := filepath.Join("a b", "mödel.STL")
		must(os.WriteFile(filepath.Join(d, in), stl, 0644))
		pf := filepath.Join("a b", "planes.txt")
		must(os.WriteFile(filepath.Join(d, pf), []byte(planes), 0644))
		debug := ""
		switch run.Pick(r, 0, 1, 1, 2) {
		case 0:
			must(os.Remove(filepath.Join(d, "data", "config.yaml")))
			c.Event("runs without a configuration", 1)
		case 1:
			debug = run.Pick(r, "dbg.txt", "a b/dbg.txt", filepath.Join(d, "a b", "c", "dbg"))
			must(os.WriteFile(filepath.Join(d, "data", "config.yaml"), []byte("debug: true\ndebug_file: "+debug+"\n"), 0644))
			rel := debug
			if filepath.IsAbs(rel) {
				rel = filepath.Join("a b", "c", "dbg")
			}
			debug = rel
			if r.Intn(2) == 0 {
				must(os.WriteFile(filepath.Join(d, debug), []byte("line Red 0 0 0 1 1 1 \n"), 0644))
			}
			c.Event("runs with debugging", 1)
		default:
			debug = "debug.txt" // of cmdDir
		}
		abs := func(p string) string {
			if r.Intn(2) == 0 {
				return filepath.Join(d, p)
			}
			return p
		}
		full := append([]string{}, args...)
		full = append(full, "--stl="+abs(in))
		if name == "goosli" {
			full = append(full, "--planes_file="+abs(pf))
		}
		may := map[string]bool{}
		var names []string
		for i, o := range outs {
			p := o.def
			if p == "" || r.Intn(2) == 0 {
				p = run.Pick(r, fmt.Sprintf("r%d", i), fmt.Sprintf("a b/r%d.x", i), fmt.Sprintf("a b/c/Ergebnis-%d", i))
				full = append(full, "--"+o.flag+"="+abs(p))
			} else {
				c.Event("outputs with default names", 1)
			}
			names = append(names, p)
			may[p] = true
			if r.Intn(2) == 0 { // there is an older and longer one
				must(os.WriteFile(filepath.Join(d, p), bytes.Repeat([]byte("old\n"), 1<<16+r.Intn(1<<20)), 0644))
				c.Event("outputs written over longer files", 1)
			}
		}
		before := treeOf(d)
		cpus := run.Pick(r, "", "0", "0-2")
		if cpus == "0" {
			c.Event("runs on one processor", 1)
		}
		res := command(c, d, cpus, name, full...)
		c.Check(res.code == 0, "%s %v failed: %s", name, full, res.text)
		c.Event("runs of "+name, 1)
		after := treeOf(d)
		for p, b := range before {
			if may[p] || p == debug {
				continue
			}
			got, ok := after[p]
			c.Check(ok, "%s %v removed %s", name, full, p)
			c.Check(bytes.Equal(got, b), "%s %v changed %s", name, full, p)
			c.Event("files left as they were", 1)
		}
		for p := range after {
			_, ok := before[p]
			c.Check(ok || may[p] || p == debug, "%s %v made %s", name, full, p)
		}
		if debug != "" {
			b, _ := os.ReadFile(filepath.Join(d, debug))
			for _, l := range strings.Split(string(b), "\n") {
				if l == "" {
					continue
				}
				f := strings.Fields(l)
				n := map[string]int{"line": 8, "triangle": 11}[f[0]]
				c.Check(n == len(f), "%s %v: line %q of the debug file", name, full, l)
				for _, s := range f[2:] {
					_, err := strconv.ParseFloat(s, 64)
					c.Check(err == nil, "%s %v: line %q of the debug file", name, full, l)
				}
				c.Event("lines of debugging", 1)
			}
		}
		for i, p := range names {
			b, err := os.ReadFile(filepath.Join(d, p))
			c.Check(err == nil, "%s %v wrote no %s: %v", name, full, p, err)
			c.Check(!bytes.HasSuffix(b, []byte("old\n")), "%s %v: the rest of an older file is left in %s", name, full, p)
			if name == "goosli_simplifier" || what == "5axes" && len(m.Tris()) > 2400 { // edges are chosen at random
				continue
			}
			if k == 0 {
				first = append(first, b)
				continue
			}
			c.Check(bytes.Equal(first[i], b), "%s %v on processors %q: %s (%d bytes) differs from what the first run wrote (%d bytes), at byte %d", name, full, cpus, p, len(b), len(first[i]), differAt(b, first[i]))
			c.Event("outputs compared", 1)
		}
	}
}

func differAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}
