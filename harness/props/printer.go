package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"verif/harness/geo"
)

// A printer that executes G-code: absolute coordinates, one logical extrusion
// coordinate shared by the tools (T0 nozzle, T1 turns and T2 tilts the bed).

type pmove struct {
	Line     int
	From, To geo.V
	XYZ, E   bool    // which words the command has
	F        float64 // speed
	Tool     int
	DE       float64    // physical change of the active tool
	Log      float64    // logical extrusion coordinate afterwards
	Phys     [3]float64 // physical positions of the tools afterwards
	Print    bool
	Fan      bool
	Layer    int // number of the LAYER comment before
	Group    string
	Bed      [2]float64 // arguments of the last G62
	G62      bool       // this is a G62
}

type program struct {
	Moves  []pmove
	Layers []int // LAYER comments
	Resets int   // G92 E0 with T0 active
	Header []string
	Switch []string // redundant fan switching
	End    pmove    // state at the end
}

// runProgram interprets the program; lenient accepts the header's and footer's commands.
func runProgram(text string, lenient bool) (*program, error) {
	var pr program
	s := pmove{Layer: -1}
	maxPhys := 0.0
	for i, raw := range strings.Split(text, "\n") {
		s.Line = i + 1
		line := raw
		if k := strings.IndexByte(line, ';'); k >= 0 {
			c := line[k+1:]
			line = line[:k]
			if rest, ok := strings.CutPrefix(c, "LAYER:"); ok {
				n, err := strconv.Atoi(strings.TrimSpace(rest))
				if err != nil {
					return nil, fmt.Errorf("line %d: %q", i+1, raw)
				}
				pr.Layers = append(pr.Layers, n)
				s.Layer = n
			} else if strings.HasSuffix(c, "_PATHES") {
				s.Group = c
			}
		}
		ws := strings.Fields(line)
		if len(ws) == 0 {
			continue
		}
		arg := map[byte]float64{}
		for _, w := range ws[1:] {
			v, err := strconv.ParseFloat(w[1:], 64)
			if _, twice := arg[w[0]]; twice || err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
				if lenient {
					continue
				}
				return nil, fmt.Errorf("line %d is not a command: %q", i+1, raw)
			}
			arg[w[0]] = v
		}
		switch ws[0] {
		case "T0", "T1", "T2":
			s.Tool = int(ws[0][1] - '0')
		case "M106":
			if s.Fan {
				pr.Switch = append(pr.Switch, fmt.Sprintf("line %d switches the fan on, and it is on", i+1))
			}
			s.Fan = true
		case "M107":
			if !s.Fan {
				pr.Switch = append(pr.Switch, fmt.Sprintf("line %d switches the fan off, and it is off", i+1))
			}
			s.Fan = false
		case "G62":
			s.Bed = [2]float64{arg['X'], arg['Z']}
			m := s
			m.From, m.XYZ, m.E, m.DE, m.Print = s.To, false, false, 0, false
			m.G62 = true
			pr.Moves = append(pr.Moves, m)
		case "G92":
			e, ok := arg['E']
			if !ok || len(arg) != 1 {
				return nil, fmt.Errorf("line %d: %q", i+1, raw)
			}
			if s.Tool == 0 && e == 0 && s.Log != 0 {
				pr.Resets++
			}
			s.Log = e
			m := s
			m.From, m.XYZ, m.E, m.DE, m.Print = s.To, false, false, 0, false
			pr.Moves = append(pr.Moves, m)
		case "G0", "G1":
			m := s
			m.From, m.To = s.To, s.To
			m.XYZ, m.E, m.DE, m.Print = false, false, 0, false
			for k, v := range arg {
				switch k {
				case 'X':
					m.To.X, m.XYZ = v, true
				case 'Y':
					m.To.Y, m.XYZ = v, true
				case 'Z':
					m.To.Z, m.XYZ = v, true
				case 'F':
					m.F = v
				case 'E':
					m.E = true
					m.DE = v - s.Log
					m.Log = v
					m.Phys[s.Tool] += m.DE
				default:
					return nil, fmt.Errorf("line %d has an unknown word: %q", i+1, raw)
				}
			}
			if m.Tool == 0 && m.E {
				m.Print = m.XYZ || m.Phys[0] > maxPhys+1e-6
				maxPhys = math.Max(maxPhys, m.Phys[0])
			}
			pr.Moves = append(pr.Moves, m)
			s = m
		default:
			if !lenient {
				return nil, fmt.Errorf("line %d is not a command: %q", i+1, raw)
			}
		}
	}
	pr.End = s
	return &pr, nil
}

// what the program is expected to do, in order
type job struct {
	Bed   string // "rotz", "tilt", "back", "rotxz" or "" for a path
	A, B  float64
	Pts   []geo.V
	Wall  bool
	Layer int
}

type jobRun struct {
	job
	Before pmove
	Travel []pmove
	Back   []pmove // extruder alone, backwards
	Prime  []pmove // extruder alone, forwards again
	Prints []pmove
}

const gtol = 0.001 + 1e-6

// follow assigns the moves of the program to the jobs and checks their geometry.
func (pr *program) follow(jobs []job) ([]jobRun, error) {
	var res []jobRun
	k := 0
	cur := pmove{Layer: -1}
	for ji, j := range jobs {
		run := jobRun{job: j, Before: cur}
		what := fmt.Sprintf("job %d of %d (%s, %d points, layer %d)", ji, len(jobs), j.Bed, len(j.Pts), j.Layer)
		// moves that only set the speed
		next := func() *pmove {
			for k < len(pr.Moves) && !pr.Moves[k].XYZ && !pr.Moves[k].E && !pr.Moves[k].G62 {
				cur = pr.Moves[k]
				k++
			}
			if k < len(pr.Moves) {
				return &pr.Moves[k]
			}
			return nil
		}
		take := func() pmove {
			cur = pr.Moves[k]
			k++
			return cur
		}
		switch j.Bed {
		case "rotxz":
			m := next()
			if m == nil || !m.G62 {
				return nil, fmt.Errorf("%s: the bed is not turned: %+v", what, m)
			}
			take()
			if !near(cur.Bed[0], j.A, gtol) || !near(cur.Bed[1], j.B, gtol) {
				return nil, fmt.Errorf("%s: the bed is at %v, commanded %g %g", what, cur.Bed, j.A, j.B)
			}
		case "rotz", "tilt", "back":
			m := next()
			run.Before = cur
			if m == nil || m.E || m.Tool != 0 || m.To.Z < 200 || m.To.X != 0 || m.To.Y != 0 {
				return nil, fmt.Errorf("%s: the nozzle is not parked before the bed moves: %+v", what, m)
			}
			run.Travel = append(run.Travel, take())
			for m = next(); m != nil && m.Tool != 0; m = next() {
				if m.XYZ {
					return nil, fmt.Errorf("%s: the nozzle and the bed move at the same time: %+v", what, *m)
				}
				run.Travel = append(run.Travel, take())
			}
		default:
			// up
			for _, leg := range []string{"up", "over", "down"} {
				for m := next(); m != nil && !m.XYZ && m.E && !m.Print; m = next() {
					if m.DE <= 0 {
						run.Back = append(run.Back, take())
					} else {
						run.Prime = append(run.Prime, take())
					}
				}
				m := next()
				if m == nil || !m.XYZ || m.E {
					return nil, fmt.Errorf("%s: no travel move (%s): %+v", what, leg, m)
				}
				want := j.Pts[0]
				switch leg {
				case "up":
					want = cur.To.Add(geo.V{Z: 0.5})
				case "over":
					want.Z += 0.5
				}
				if !reached(m.To, want) {
					return nil, fmt.Errorf("%s: line %d travels %s to %v, expected %v", what, m.Line, leg, m.To, want)
				}
				run.Travel = append(run.Travel, take())
			}
			for m := next(); m != nil && m.E && m.Tool == 0; m = next() {
				if !m.XYZ && m.DE < 0 { // of the next path
					break
				}
				run.Prints = append(run.Prints, take())
			}
			if n := len(run.Prints); n == len(j.Pts) && !run.Prints[0].XYZ {
				run.Prime = append(run.Prime, run.Prints[0])
				run.Prints = run.Prints[1:]
			}
			if err := along(j.Pts, run.Prints); err != nil {
				return nil, fmt.Errorf("%s: %v", what, err)
			}
		}
		res = append(res, run)
	}
	for ; k < len(pr.Moves); k++ {
		if m := pr.Moves[k]; m.XYZ || m.E || m.G62 {
			return nil, fmt.Errorf("line %d moves after the last path: %+v", m.Line, m)
		}
	}
	return res, nil
}

func reached(a, b geo.V) bool {
	return near(a.X, b.X, gtol) && near(a.Y, b.Y, gtol) && near(a.Z, b.Z, gtol)
}

// along: the moves visit all the points in order and stay on the path.
func along(pts []geo.V, ms []pmove) error {
	if len(ms) == len(pts)-1 {
		for i, m := range ms {
			if !reached(m.To, pts[i+1]) {
				return fmt.Errorf("line %d: the nozzle is at %v, point %d of the path is %v", m.Line, m.To, i+1, pts[i+1])
			}
		}
		return nil
	}
	i := 0
	for _, m := range ms {
		ok := reached(m.To, pts[i])
		for i+1 < len(pts) && reached(m.To, pts[i+1]) {
			i++
			ok = true
		}
		if !ok && (i+1 == len(pts) || geo.SegDist(m.To, pts[i], pts[i+1]) > 2*gtol) {
			return fmt.Errorf("line %d: the nozzle is at %v, away from the path after point %d %v", m.Line, m.To, i, pts[i])
		}
	}
	for i+1 < len(pts) && reached(pts[i], pts[i+1]) {
		i++
	}
	if i+1 != len(pts) {
		return fmt.Errorf("point %d of the path, %v, is not reached", i+1, pts[i+1])
	}
	return nil
}
