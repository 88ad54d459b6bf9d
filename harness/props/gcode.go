package props

import (
	"bytes"
	"math"

	"github.com/l1va/goosli/gcode"
	p "github.com/l1va/goosli/primitives"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

type gcmd struct {
	Kind   string     `json:"k"`
	A      float64    `json:"a,omitempty"`
	B      float64    `json:"b,omitempty"`
	Layers [][][]gpth `json:"l,omitempty"` // layers of four groups of paths
}

// gpth is a path: points given, or a walk of N steps.
type gpth struct {
	Pts  []geo.V `json:"p"`
	N    int     `json:"n,omitempty"`
	Step float64 `json:"s,omitempty"`
	Seed uint64  `json:"seed,omitempty"`
	Kind string  `json:"kind,omitempty"`
}

func (g gpth) points() []geo.V {
	pts := append([]geo.V{}, g.Pts...)
	rng := gen.NewRng(g.Seed)
	q := pts[len(pts)-1]
	for i := 0; i < g.N; i++ {
		switch g.Kind {
		case "walk":
			q = q.Add(geo.V{X: g.Step * (2*rng.F() - 1), Y: g.Step * (2*rng.F() - 1)})
		case "line": // the same tiny step again and again
			q = q.Add(geo.V{X: g.Step, Y: g.Step * 0.7, Z: g.Step * 0.3})
		case "far":
			q = geo.V{X: g.Step * (2*rng.F() - 1), Y: g.Step * (2*rng.F() - 1), Z: q.Z}
		case "circle":
			a := 2 * math.Pi * float64(i) / float64(g.N)
			q = g.Pts[0].Add(geo.V{X: g.Step * math.Sin(a), Y: g.Step * (1 - math.Cos(a))})
		}
		pts = append(pts, q)
	}
	return pts
}

type gcodeCase struct {
	Set  gcode.GcodeSettings `json:"set"`
	Cmds []gcmd              `json:"cmds"`
}

func genGcodeSettings(t *rapid.T) gcode.GcodeSettings {
	return gcode.GcodeSettings{
		BarDiameter:        gen.Pick(t, "bar", 1.75, 1.75, 3, 2.85, 0.5, 0.3),
		Flow:               gen.Pick(t, "flow", 1, 1, 0.5, 0.93, 0.05),
		LayerHeight:        gen.Nice(t, "lh", 0.05, 1, 0.05),
		LineWidth:          gen.Nice(t, "lw", 0.1, 2, 0.1),
		FanOffLayer1:       gen.P(t, "fanoff", 0.5),
		PrintSpeed:         gen.Pick(t, "ps", 3000, 3000, 600, 1234, 300),
		PrintSpeedLayer1:   gen.Pick(t, "ps1", 3000, 1200, 1800, 300, 77),
		PrintSpeedWall:     gen.Pick(t, "psw", 3000, 2400, 1200, 999, 300),
		Retraction:         gen.P(t, "retr", 0.5),
		RetractionSpeed:    gen.Pick(t, "rs", 25, 2400, 3000, 300, 1),
		RetractionDistance: gen.Pick(t, "rd", 1, 5, 0.8, 0.0125, 6.5),
	}
}

func genGpth(t *rapid.T, z float64) gpth {
	m := gen.Pick(t, "mag", 50.0, 50, 150, 1, 5000)
	pt := func() geo.V {
		v := drawPoint(t, "p", m)
		if gen.P(t, "flat", 0.7) {
			v.Z = z
		}
		return v
	}
	g := gpth{Pts: []geo.V{pt()}}
	switch gen.I(t, "kind", 0, 9) {
	case 0: // one point
	case 1, 2:
		g.Kind = gen.Pick(t, "walk", "walk", "line")
		g.N = gen.I(t, "n", 1, 60)
		g.Step = gen.Pick(t, "step", 0.0004, 0.0009, 0.00099, 0.001, 0.0016, 0.00005, 0.01)
		g.Seed = gen.Seed(t, "seed")
	case 3:
		g.Kind = "circle"
		g.N = gen.I(t, "n", 3, 200)
		g.Step = gen.Log(t, "r", 1e-3, 60)
	case 4: // long
		g.Kind = "far"
		g.N = gen.I(t, "n", 1, 20)
		g.Step = gen.Pick(t, "far", 100.0, 1000, 9000)
		g.Seed = gen.Seed(t, "seed")
	default:
		for i := gen.I(t, "n", 1, 8); i > 0; i-- {
			v := pt()
			switch gen.I(t, "rel", 0, 7) {
			case 0:
				v = g.Pts[len(g.Pts)-1]
			case 1: // only one coordinate changes
				w := g.Pts[len(g.Pts)-1]
				w.X = v.X
				v = w
			case 2:
				v = g.Pts[len(g.Pts)-1].Add(geo.V{X: gen.F(t, "dx", -0.002, 0.002), Y: gen.F(t, "dy", -0.002, 0.002), Z: gen.F(t, "dz", -0.002, 0.002)})
			}
			g.Pts = append(g.Pts, v)
		}
		if gen.P(t, "closed", 0.5) {
			g.Pts = append(g.Pts, g.Pts[0])
		}
	}
	return g
}

func genGcodeCase(t *rapid.T) gcodeCase {
	c := gcodeCase{Set: genGcodeSettings(t)}
	z := 0.2
	for i := gen.I(t, "cmds", 1, 7); i > 0; i-- {
		k := gcmd{Kind: gen.Pick(t, "cmd", "layers", "layers", "layers", "rotz", "tilt", "back", "rotxz")}
		switch k.Kind {
		case "rotz", "rotxz":
			k.A, k.B = drawAngle(t, "a"), drawAngle(t, "b")
		case "layers":
			for j := gen.I(t, "layers", 0, 4); j > 0; j-- {
				var l [][]gpth
				for g := 0; g < 4; g++ {
					var ps []gpth
					for n := gen.Pick(t, "paths", 0, 1, 1, 2, 4); n > 0; n-- {
						ps = append(ps, genGpth(t, z))
					}
					l = append(l, ps)
				}
				k.Layers = append(k.Layers, l)
				z += c.Set.LayerHeight
			}
		}
		c.Cmds = append(c.Cmds, k)
	}
	return c
}

// build gives the library's program and what it has to do.
func (c gcodeCase) build() (gcode.Gcode, []job) {
	g := gcode.NewGcode(c.Set)
	var jobs []job
	n := 0
	paths := func(gs []gpth, wall bool) []p.Path {
		var res []p.Path
		for _, q := range gs {
			pts := q.points()
			res = append(res, pathOf(pts))
			jobs = append(jobs, job{Pts: pts, Wall: wall, Layer: n})
		}
		return res
	}
	for _, k := range c.Cmds {
		switch k.Kind {
		case "rotz":
			g.Add(gcode.RotateZ{Angle: k.A})
		case "tilt":
			g.Add(gcode.InclineX{})
		case "back":
			g.Add(gcode.InclineXBack{})
		case "rotxz":
			g.Add(gcode.RotateXZ{AngleX: k.A, AngleZ: k.B})
		case "layers":
			var ls []p.Layer
			for _, l := range k.Layers {
				ls = append(ls, p.Layer{Order: n, Norm: p.AxisZ, Paths: paths(l[0], true), MiddlePs: paths(l[1], true),
					InnerPs: paths(l[2], true), Fill: paths(l[3], false)})
				n++
			}
			g.AddLayers(ls)
			continue
		}
		jobs = append(jobs, job{Bed: k.Kind, A: k.A, B: k.B})
	}
	return g, jobs
}

func output(g gcode.Gcode) string {
	var b bytes.Buffer
	g.ToOutput(&b)
	return b.String()
}

// run interprets the case's program; the jobs get what was done for them.
func (c gcodeCase) run(r *fw.Rec) (gcode.Gcode, *program, []jobRun, error) {
	g, jobs := c.build()
	text := output(g)
	if again := output(g); again != text {
		return g, nil, nil, errf("written twice, the program differs")
	}
	pr, err := runProgram(text, false)
	if err != nil {
		return g, nil, nil, err
	}
	runs, err := pr.follow(jobs)
	r.Count("paths", len(jobs))
	r.Count("moves", len(pr.Moves))
	return g, pr, runs, err
}

func checkC24(c gcodeCase, r *fw.Rec) error {
	_, _, runs, err := c.run(r)
	for _, j := range runs {
		if len(j.Prints) > 0 {
			r.NT()
		}
	}
	return err
}

// perMM is what one mm of path needs of the bar.
func perMM(s gcode.GcodeSettings) float64 {
	return 4 * s.LineWidth * s.LayerHeight * s.Flow / (math.Pi * s.BarDiameter * s.BarDiameter)
}

func judgeExtrusion(s gcode.GcodeSettings, pr *program, runs []jobRun, r *fw.Rec) error {
	total, log := 0.0, 0.0
	for ji, j := range runs {
		if j.Bed != "" {
			for _, m := range j.Travel {
				if m.Phys[0] != j.Before.Phys[0] && !near(m.Phys[0], j.Before.Phys[0], 1e-9) {
					return errf("line %d: the bed moves and the extruder advances by %g", m.Line, m.Phys[0]-j.Before.Phys[0])
				}
			}
			continue
		}
		tol := 0.0006*float64(pr.Resets+2) + 1e-9*total
		want := total
		if s.Retraction {
			want -= s.RetractionDistance
			r.Tag("retraction")
		}
		over := j.Travel[1] // the way to the next path
		if !near(over.Phys[0], want, tol+0.0011) {
			return errf("line %d: the nozzle travels with %g of the bar used, expected %g (retraction %v %g)", over.Line, over.Phys[0], want, s.Retraction, s.RetractionDistance)
		}
		for i, m := range j.Prints {
			if d := m.Phys[0] - m.DE; i == 0 && !near(d, total, tol) {
				return errf("line %d begins to print with %g of the bar used, expected %g", m.Line, d, total)
			}
		}
		length := 0.0
		for i := 1; i < len(j.Pts); i++ {
			length += j.Pts[i].Dist(j.Pts[i-1])
			if len(j.Prints) == len(j.Pts)-1 {
				m := j.Prints[i-1]
				if e := total + perMM(s)*length; !near(m.Phys[0], e, tol) {
					return errf("line %d: %g extruded so far, expected %g (path %d, point %d)", m.Line, m.Phys[0], e, ji, i)
				}
			}
		}
		total += perMM(s) * length
		for _, m := range j.Prints {
			if m.DE < -1e-6 {
				return errf("line %d: printing pulls the bar back by %g", m.Line, -m.DE)
			}
		}
		if n := len(j.Prints); n > 0 {
			if m := j.Prints[n-1]; !near(m.Phys[0], total, tol) {
				return errf("line %d: %g extruded so far, expected %g (path %d)", m.Line, m.Phys[0], total, ji)
			}
			if j.Prints[n-1].Log < log {
				r.Tag("counter reset")
			}
			log = j.Prints[n-1].Log
			r.NT()
		}
	}
	return nil
}

func checkC25(c gcodeCase, r *fw.Rec) error {
	_, pr, runs, err := c.run(r)
	if err != nil {
		return err
	}
	return judgeExtrusion(c.Set, pr, runs, r)
}

func judgeSpeeds(s gcode.GcodeSettings, layers int, pr *program, runs []jobRun, r *fw.Rec) error {
	for i, n := range pr.Layers {
		if n != i {
			return errf("layer comment %d has number %d", i, n)
		}
	}
	if len(pr.Layers) != layers {
		return errf("%d layer comments, %d layers reported", len(pr.Layers), layers)
	}
	if len(pr.Switch) > 0 {
		return errf("%s", pr.Switch[0])
	}
	speeds := map[float64]bool{}
	for _, j := range runs {
		want := float64(s.PrintSpeed)
		if j.Layer == 0 {
			want = float64(s.PrintSpeedLayer1)
		} else if j.Wall {
			want = float64(s.PrintSpeedWall)
		}
		for _, m := range j.Prints {
			if m.F != want {
				return errf("line %d prints with speed %g, set is %g (layer %d, wall %v)", m.Line, m.F, want, j.Layer, j.Wall)
			}
			if fan := j.Layer > 0 || !s.FanOffLayer1; m.Fan != fan {
				return errf("line %d prints with the fan on=%v on layer %d", m.Line, m.Fan, j.Layer)
			}
			if m.Layer != j.Layer {
				return errf("line %d belongs to layer %d but comes after the comment for layer %d", m.Line, j.Layer, m.Layer)
			}
			speeds[want] = true
		}
	}
	if len(speeds) > 1 {
		r.NT()
	}
	r.Tag("%d speeds", len(speeds))
	return nil
}

func checkC26(c gcodeCase, r *fw.Rec) error {
	g, pr, runs, err := c.run(r)
	if err != nil {
		return err
	}
	layers := 0
	for _, k := range c.Cmds {
		layers += len(k.Layers)
	}
	if g.LayerCount() != layers {
		return errf("%d layers reported, %d given", g.LayerCount(), layers)
	}
	return judgeSpeeds(c.Set, layers, pr, runs, r)
}

func judgeBed(runs []jobRun, pr *program, r *fw.Rec) error {
	var turn, tilt float64
	moves := 0
	for i, j := range runs {
		switch j.Bed {
		case "rotz":
			turn = j.A
		case "tilt":
			tilt = 60
		case "back":
			tilt = 0
		default:
			for _, m := range append(append([]pmove{}, j.Travel...), j.Prints...) {
				if m.Tool != 0 {
					return errf("line %d: tool %d is used for a path", m.Line, m.Tool)
				}
				if !near(m.Phys[1], turn, gtol) || !near(m.Phys[2], tilt, gtol) {
					return errf("line %d: the bed is at turn %g tilt %g, commanded %g %g", m.Line, m.Phys[1], m.Phys[2], turn, tilt)
				}
			}
			continue
		}
		moves++
		last := j.Travel[len(j.Travel)-1]
		if !near(last.Phys[1], turn, gtol) || !near(last.Phys[2], tilt, gtol) {
			return errf("line %d: the bed is at turn %g tilt %g, commanded %g %g", last.Line, last.Phys[1], last.Phys[2], turn, tilt)
		}
		if i+1 == len(runs) {
			if pr.End.Tool != 0 {
				return errf("the program ends with tool %d", pr.End.Tool)
			}
			if !near(pr.End.Log, j.Before.Log, 0.0011) {
				return errf("the counter is at %g after the bed moved, it was %g", pr.End.Log, j.Before.Log)
			}
		} else if n := runs[i+1]; n.Bed != "rotxz" {
			first := n.Travel[0]
			if first.Tool != 0 {
				return errf("line %d: tool %d after the bed moved", first.Line, first.Tool)
			}
			if log := first.Log - first.DE; len(n.Back) == 0 && !near(log, j.Before.Log, 0.0011) {
				return errf("line %d: the counter is at %g after the bed moved, it was %g", first.Line, log, j.Before.Log)
			}
			if n.Bed == "" {
				for _, m := range n.Travel[:len(n.Travel)-2] {
					if m.To.Z < 200-gtol {
						return errf("line %d: after the bed moved the nozzle goes down to %v, the next path starts at %v", m.Line, m.To, n.Pts[0])
					}
				}
				r.Tag("path after bed movement")
			}
		}
	}
	if moves > 1 {
		r.NT()
	}
	return nil
}

func checkC27(c gcodeCase, r *fw.Rec) error {
	_, pr, runs, err := c.run(r)
	if err != nil {
		return err
	}
	return judgeBed(runs, pr, r)
}

// programs with many bed commands
func genBedCase(t *rapid.T) gcodeCase {
	c := gcodeCase{Set: genGcodeSettings(t)}
	for i := gen.I(t, "cmds", 2, 14); i > 0; i-- {
		k := gcmd{Kind: gen.Pick(t, "cmd", "layers", "rotz", "tilt", "back", "rotz", "rotxz")}
		switch k.Kind {
		case "rotz", "rotxz":
			k.A, k.B = drawAngle(t, "a"), drawAngle(t, "b")
		case "layers":
			l := make([][]gpth, 4)
			for n := gen.I(t, "paths", 0, 2); n > 0; n-- {
				l[gen.I(t, "group", 0, 3)] = []gpth{genGpth(t, 0.2)}
			}
			k.Layers = append(k.Layers, l)
		}
		c.Cmds = append(c.Cmds, k)
	}
	return c
}

// programs long enough to reset the counter several times
func genLongCase(t *rapid.T) gcodeCase {
	c := gcodeCase{Set: genGcodeSettings(t)}
	c.Set.LineWidth, c.Set.LayerHeight, c.Set.BarDiameter = gen.F(t, "lw", 0.5, 2), gen.F(t, "lh", 0.2, 1), gen.Pick(t, "bar", 0.3, 0.5, 1)
	for i := gen.I(t, "cmds", 2, 6); i > 0; i-- {
		k := gcmd{Kind: "layers"}
		if gen.P(t, "bed", 0.3) {
			k.Kind, k.A = gen.Pick(t, "cmd", "rotz", "tilt", "back"), drawAngle(t, "a")
		} else {
			for j := gen.I(t, "layers", 1, 4); j > 0; j-- {
				l := make([][]gpth, 4)
				for g := range l {
					for n := gen.I(t, "paths", 0, 2); n > 0; n-- {
						l[g] = append(l[g], gpth{Pts: []geo.V{drawPoint(t, "p", 50)}, Kind: "far", N: gen.I(t, "n", 1, 20),
							Step: gen.Pick(t, "far", 100.0, 500, 2000), Seed: gen.Seed(t, "seed")})
					}
				}
				k.Layers = append(k.Layers, l)
			}
		}
		c.Cmds = append(c.Cmds, k)
	}
	return c
}

func init() {
	for id, check := range map[string]func(gcodeCase, *fw.Rec) error{"C24": checkC24, "C25": checkC25, "C26": checkC26, "C27": checkC27} {
		fw.Register(&fw.Prop{ID: id, Subs: []*fw.Sub{
			fw.S("programs", 12000, genGcodeCase, check),
			fw.S("bed", 6000, genBedCase, check),
			fw.S("long", 3000, genLongCase, check),
		}})
	}
}
