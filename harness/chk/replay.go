package chk

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"verif/geo"
)

// An interpreter of the g-code that goosli writes: absolute positioning, absolute extruder counters, one counter per
// tool: T0 - filament, T1 - rotation of the bed, T2 - inclination of the bed.

type evKind int

const (
	evMove  evKind = iota // position or the filament changed (or could)
	evBed                 // T1/T2 moved
	evG62                 // bed pose of the 5 axes modes
	evLayer               // ;LAYER:n
	evReset               // G92 of the filament counter
	evText                // other comment
)

type event struct {
	kind     evKind
	from, to geo.V3
	hasPos   bool    // has X, Y or Z word
	hasE     bool    // has E word
	de       float64 // fed filament
	cnt      float64 // counter of the current tool after the event
	f        float64 // feedrate during the move
	fan      bool
	layer    int // number from the last marker, -1 before it
	tool     int
	phys     [3]float64 // physical positions of the tools after the event
	g62      [2]float64
	line     int
	text     string
}

type machine struct {
	pos   geo.V3
	known bool // position is known (was set at least once)
	f     float64
	fan   bool
	tool  int
	e     [3]float64 // counters
	phys  [3]float64
	layer int
	rx    float64
	rz    float64
}

func replay(text string) ([]event, error) {
	m := machine{layer: -1}
	var out []event
	for n, line := range strings.Split(text, "\n") {
		raw := line
		bad := func(why string) error { return fmt.Errorf("line %d %q: %s", n+1, raw, why) }
		if i := strings.IndexByte(line, ';'); i >= 0 {
			com := strings.TrimSpace(line[i+1:])
			line = line[:i]
			if strings.HasPrefix(com, "LAYER:") {
				k, err := strconv.Atoi(com[6:])
				if err != nil {
					return nil, bad("bad layer number")
				}
				m.layer = k
				out = append(out, event{kind: evLayer, layer: k, line: n + 1, text: com, tool: m.tool, phys: m.phys})
			} else {
				out = append(out, event{kind: evText, layer: m.layer, line: n + 1, text: com})
			}
		}
		words := strings.Fields(line)
		if len(words) == 0 {
			continue
		}
		val := map[byte]float64{}
		for _, w := range words[1:] {
			x, err := strconv.ParseFloat(w[1:], 64)
			if err != nil || math.IsNaN(x) || math.IsInf(x, 0) {
				return nil, bad("bad number " + w)
			}
			if _, ok := val[w[0]]; ok {
				return nil, bad("repeated word " + w)
			}
			val[w[0]] = x
		}
		ev := event{from: m.pos, to: m.pos, f: m.f, fan: m.fan, layer: m.layer, tool: m.tool, line: n + 1, text: raw}
		switch words[0] {
		case "G0", "G1":
			for k, v := range val {
				switch k {
				case 'X':
					m.pos[0] = v
					ev.hasPos = true
				case 'Y':
					m.pos[1] = v
					ev.hasPos = true
				case 'Z':
					m.pos[2] = v
					ev.hasPos = true
				case 'F':
					m.f = v
				case 'E':
					ev.hasE = true
					ev.de = v - m.e[m.tool]
					m.phys[m.tool] += ev.de
					m.e[m.tool] = v
				default:
					return nil, bad("unknown word")
				}
			}
			if !ev.hasPos && !ev.hasE {
				continue // only feedrate
			}
			ev.kind = evMove
			if m.tool != 0 {
				ev.kind = evBed
			}
			ev.to, ev.f = m.pos, m.f
		case "G92":
			if len(val) != 1 {
				return nil, bad("only E may be reset")
			}
			v, ok := val['E']
			if !ok {
				return nil, bad("only E may be reset")
			}
			if m.tool == 0 {
				ev.kind = evReset
				ev.de = v - m.e[0]
			} else {
				ev.kind = evText
			}
			m.e[m.tool] = v
		case "G62":
			ev.kind = evG62
			x, okx := val['X']
			z, okz := val['Z']
			if !okx || !okz || len(val) != 2 {
				return nil, bad("G62 needs X and Z")
			}
			ev.g62 = [2]float64{x, z}
		case "T0", "T1", "T2":
			m.tool = int(words[0][1] - '0')
			continue
		case "M106":
			m.fan = true
			continue
		case "M107":
			m.fan = false
			continue
		default:
			return nil, bad("unknown command")
		}
		ev.phys, ev.cnt = m.phys, m.e[m.tool]
		out = append(out, ev)
	}
	return out, nil
}
