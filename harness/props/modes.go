package props

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/l1va/goosli/gcode"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- C31: every mode, every kind of model ----

var modeNames = []string{"3axes", "5axes", "profile", "vip", "vip planes"}

type modesCase struct {
	Kind  string       `json:"kind"`
	Mode  string       `json:"mode"`
	Mesh  gen.MeshSpec `json:"mesh"`
	Leans []lean       `json:"leans"`
	Easy  bool         `json:"easy"` // nothing overhangs
	N     int          `json:"n"`
	Line  float64      `json:"line"`
	Walls int          `json:"walls"`
	Type  string       `json:"type"`
	Dens  int          `json:"dens"`
	Top   int          `json:"top"`
	Eps   float64      `json:"eps"`
	Blank []int        `json:"blank"` // where the plane file has empty lines
	Seed  uint64       `json:"seed"`
}

func drawColumn(t *rapid.T, easy bool, sides int) lean {
	var l lean
	n := gen.I(t, "sides", sides, 20)
	l.Shape = gen.Shape{Kind: "ngon", P: []float64{float64(n), gen.Nice(t, "r", 2, 8, 1)}}
	round := true
	switch {
	case sides > 4:
	case gen.P(t, "rect", 0.4):
		l.Shape = gen.Shape{Kind: "rect", P: []float64{gen.Nice(t, "w", 2, 12, 1), gen.Nice(t, "d", 2, 12, 1)}}
		round = !easy
	case gen.P(t, "any", 0.3):
		l.Shape = gen.DrawShape(t, "shape", false)
		round = !easy
	case n < 8:
		round = !easy
	}
	for i := gen.I(t, "secs", 1, 3); i > 0; i-- {
		s := leanSec{H: gen.Nice(t, "h", 2, 12, 1), S: 1}
		if round {
			if gen.P(t, "lean?", 0.6) {
				s.Angle = gen.Nice(t, "angle", 0, map[bool]float64{true: 25, false: 75}[easy], 5)
				s.Dir = gen.Nice(t, "dir", 0, 360, 15)
			}
			if gen.P(t, "taper?", 0.3) {
				s.S = gen.F(t, "taper", 0.6, map[bool]float64{true: 1, false: 1.4}[easy])
				if easy {
					s.Angle = 0
				}
			}
		}
		l.Secs = append(l.Secs, s)
	}
	return l
}

func genModes(t *rapid.T) modesCase {
	var c modesCase
	c.Kind = gen.Pick(t, "kind", "column", "legs", "round", "any", "any", "any", "empty", "vase")
	c.Easy = gen.P(t, "easy", 0.3)
	at := geo.V{X: gen.Nice(t, "x", -40, 40, 5), Y: gen.Nice(t, "y", -40, 40, 5)}
	switch c.Kind {
	case "column":
		c.Leans = []lean{drawColumn(t, c.Easy, 4)}
	case "round":
		c.Leans = []lean{drawColumn(t, c.Easy, 14)}
	case "legs":
		a, b := drawColumn(t, c.Easy, 4), drawColumn(t, c.Easy, 4)
		if gen.P(t, "same", 0.6) {
			b = a
			if gen.P(t, "mirror", 0.5) { // legs lean toward or away from each other
				b.Secs = append([]leanSec(nil), a.Secs...)
				for i := range b.Secs {
					b.Secs[i].Dir += 180
				}
			}
		}
		c.Leans = []lean{a, b}
		c.Easy = false
	case "vase": // many triangles
		r, a, w := gen.F(t, "vr", 4, 10), gen.F(t, "va", 0.5, 3), gen.F(t, "vw", 1, 8)
		pr := [][2]float64{{0, 0}}
		k := gen.I(t, "vk", 20, 31)
		for i := 0; i <= k; i++ {
			pr = append(pr, [2]float64{r + a*math.Sin(float64(i)/w), float64(i) / 2})
		}
		pr = append(pr, [2]float64{0, float64(k) / 2})
		c.Mesh = gen.MeshSpec{Bodies: []gen.Body{{Kind: "revolve", Prof: pr, N: gen.I(t, "vn", 20, 60)}}, Shift: at}
		c.Easy = false
	case "any":
		c.Mesh = gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 3, Rotate: true, Upright: true, Grid: true, Cavity: true, Shift: 40, OnBed: true})
		c.Easy = false
	}
	if len(c.Leans) == 2 { // boxes of the legs do not meet
		_, ah := c.Leans[0].build().Box()
		bl, _ := c.Leans[1].build().Box()
		c.Leans[1].At = geo.V{X: math.Ceil(ah.X - bl.X + gen.Nice(t, "gap", 1, 10, 1))}
		c.Leans[1].At.Y = gen.Nice(t, "aside", -5, 5, 1)
	}
	for i := range c.Leans {
		c.Leans[i].At = c.Leans[i].At.Add(at)
	}
	c.Mode = gen.Pick(t, "mode", modeNames...)
	c.N = gen.I(t, "n", 1, gen.Pick(t, "most", 16, 16, 16, 40))
	c.Line = gen.Pick(t, "line", 0.4, 0.4, 0.8, 1)
	c.Walls = gen.Pick(t, "walls", 1, 1, 2, 3)
	c.Type = gen.Pick(t, "type", "Lines", "Squares", "Triangles")
	c.Dens = gen.Pick(t, "dens", 20, 10, 50, 0)
	c.Top = gen.Pick(t, "top", 0, 0, 2)
	c.Eps = gen.Pick(t, "eps", 10, 3, 0.5)
	for i := gen.I(t, "blanks", 0, 2); i > 0; i-- {
		c.Blank = append(c.Blank, gen.I(t, "blank", 0, 5))
	}
	c.Seed = gen.Seed(t, "seed")
	return c
}

func (c modesCase) build() geo.Mesh {
	var m geo.Mesh
	switch {
	case c.Kind == "empty":
	case len(c.Leans) > 0:
		for _, l := range c.Leans {
			m = append(m, l.build()...)
		}
	default:
		m = c.Mesh.Build()
	}
	return m
}

// unturned undoes the bed movements of the modes that choose orientations.
func (b bedGroup) unturned(v geo.V) geo.V {
	if b.Tilted {
		v = geo.Rot(v, geo.V{X: 1}, tilt)
	}
	v = geo.Rot(v, geo.V{Z: 1}, b.Rotz)
	v = geo.Rot(v, geo.V{X: 1}, b.X)
	return geo.Rot(v, geo.V{Z: 1}, b.Z)
}

func checkModes(c modesCase, r *fw.Rec) error {
	m := c.build()
	mesh := m.Goosli()
	var lo, hi geo.V
	T := 0.2
	if len(m) > 0 {
		lo, hi = m.Box()
		T = (hi.Z - lo.Z) / float64(c.N)
	}
	set := baseSettings(T)
	set.GcodeSettings.LineWidth = c.Line
	set.WallThickness = c.Line * float64(c.Walls)
	set.FillingType, set.FillDensity = c.Type, c.Dens
	set.TopLayers, set.BottomLayers = c.Top, c.Top
	set.Epsilon = c.Eps
	before := meshCopy(mesh)
	var g gcode.Gcode
	dir, err := os.MkdirTemp("", "modes")
	fw.Must(err)
	defer os.RemoveAll(dir)
	set.PlanesFile = filepath.Join(dir, "planes.txt")
	switch c.Mode {
	case "3axes":
		g = gcode.NewGcode(*set.GcodeSettings)
		g.AddLayers(slicers.SliceByVector(mesh, p.AxisZ, set))
	case "5axes":
		g = slicers.Slice5Axes(mesh, set)
	case "profile":
		g = slicers.SliceByProfile(mesh, set)
	default:
		var lines []string
		if c.Mode == "vip planes" {
			for _, q := range vip.Analyze(mesh, 30) {
				lines = append(lines, q.String())
			}
			if len(lines) == 0 {
				lines = append(lines, fmt.Sprintf("X%.3f Y%.3f Z%.3f Ttrue R30", (lo.X+hi.X)/2, (lo.Y+hi.Y)/2, (lo.Z+hi.Z)/2))
			}
		}
		for _, k := range c.Blank {
			k %= len(lines) + 1
			lines = append(lines[:k], append([]string{""}, lines[k:]...)...)
		}
		if len(lines) > 0 {
			fw.Must(os.WriteFile(set.PlanesFile, []byte(strings.Join(lines, "\n")+"\n"), 0644))
		}
		g = vip.Slice(mesh, set)
	}
	var out bytes.Buffer
	g.ToOutput(&out)
	r.Tag("%s", c.Mode)
	r.Tag("%s", c.Kind)
	if c.Mode == "5axes" && len(m) > 2500 {
		r.Tag("5axes simplified")
	}
	if !sameTriangles(before, mesh.Triangles) {
		return errf("the model changed")
	}
	groups, _ := bedGroups(g)
	if c.Mode == "vip planes" && len(m) > 0 {
		return nil // C30
	}
	// how much is printed and where
	printed, parts, amax := 0.0, 0, 0.0
	rng := gen.NewRng(c.Seed)
	for _, x := range g.Cmds {
		if l, ok := x.(gcode.LayersMoving); ok && len(l.Layers) > 0 {
			parts++
		}
	}
	if len(m) == 0 {
		if len(groups) > 0 {
			return errf("layers of an empty model")
		}
		return nil
	}
	size := hi.Sub(lo).MaxAbs()
	near := math.Max(1e-4, 1e-5*(size+hi.MaxAbs()+lo.MaxAbs()))
	for k, gr := range groups {
		for j, l := range gr.Layers {
			f := geo.Frame{}
			area := 0.0
			var loops []geo.Loop
			n := geo.FromV(l.Norm)
			for _, q := range l.Paths {
				if len(q.Points) < 3 {
					continue
				}
				if len(loops) == 0 {
					f = geo.NewFrame(geo.FromP(q.Points[0]), n)
				}
				loop := geo.PathLoop(f, q)
				loops = append(loops, loop)
				area += loop.Area()
			}
			area = math.Abs(area)
			printed += area * T
			amax = math.Max(amax, area)
			probe := func(what string, q geo.V) error {
				u := gr.unturned(q)
				if m.Dist(u) < near {
					return nil
				}
				r.Count("points", 1)
				if w := m.Winding(u); math.Abs(w) < 0.5 {
					return errf("bed group %d of %d (turned %g %g, tilted %v %g), layer %d of %d: %s at %v is outside of the model (%v there)", k, len(groups), gr.Rotz, gr.Z, gr.Tilted, gr.X, j, len(gr.Layers), what, q, u)
				}
				return nil
			}
			for try := 0; try < 6 && len(loops) > 0; try++ {
				lp := loops[rng.N(len(loops))]
				a, b := lp[rng.N(len(lp))], lp[rng.N(len(lp))]
				q := a.Add(b.Sub(a).Mul(rng.F()))
				w := 0
				d := math.Inf(1)
				for _, o := range loops {
					w += o.Winding(q)
					d = math.Min(d, o.Dist(q))
				}
				if w != 0 && d > near {
					if err := probe("a point inside the contours", f.From(q)); err != nil {
						return err
					}
				}
			}
		}
	}
	turned := false
	for _, x := range g.Cmds {
		switch x.(type) {
		case gcode.LayersMoving:
		default:
			turned = true
		}
	}
	if turned {
		r.NT()
		r.Tag("%s turns the bed", c.Mode)
		r.Count("parts", parts)
	}
	hs := m.Heights(geo.V{Z: 1}) // ascending
	for i := 1; i < len(hs); i++ {
		if i%(1+len(hs)/40) == 0 {
			for _, k := range []float64{0.02, 0.5, 0.98} {
				amax = math.Max(amax, m.SectionArea(geo.NewFrame(geo.V{Z: hs[i-1] + k*(hs[i]-hs[i-1])}, geo.V{Z: 1})))
			}
		}
	}
	vol := m.Volume()
	if d := math.Abs(printed - vol); d > float64(parts+1)*T*amax+1e-6*vol {
		return errf("the layers of %d parts print a volume of %g, the model has %g (layers of %g, largest section %g)", parts, printed, vol, T, amax)
	}
	easy := c.Easy
	for _, l := range c.Leans { // layers that stand beside the ones below overhang
		k := 1.0
		for _, q := range l.Secs {
			k *= q.S
			if q.Angle > 0 && T*math.Tan(q.Angle*math.Pi/180) > 0.3*k*l.Shape.P[1] {
				easy = false
			}
		}
	}
	if !turned || easy {
		plain := slicers.SliceByVector(mesh, p.AxisZ, set)
		if turned && c.Mode != "profile" {
			return errf("nothing overhangs, but the bed is turned")
		}
		if !turned {
			r.NT()
			var all []p.Layer
			for _, gr := range groups {
				all = append(all, gr.Layers...)
			}
			if len(all) != len(plain) {
				return errf("%d layers, plain slicing has %d", len(all), len(plain))
			}
			for i := range all {
				if len(all[i].Paths) != len(plain[i].Paths) {
					return errf("layer %d has %d contours, in plain slicing %d", i, len(all[i].Paths), len(plain[i].Paths))
				}
				for j := range all[i].Paths {
					if !samePoints(all[i].Paths[j], plain[i].Paths[j]) {
						return errf("contour %d of layer %d differs from plain slicing", j, i)
					}
				}
			}
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C31", Termination: true, Subs: []*fw.Sub{
		fw.S("modes", 1500, genModes, checkModes),
	}})
}
