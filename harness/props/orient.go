package props

import (
	"math"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// turnedXZ is where a point of the model is when the bed is turned about Z and
// then tilted about X (the convention of the modes that choose orientations).
func turnedXZ(v geo.V, x, z float64) geo.V {
	return geo.Rot(geo.Rot(v, geo.V{Z: 1}, -z), geo.V{X: 1}, -x)
}

// lean is a column made of sections that lean by an angle toward a direction.
type lean struct {
	Shape gen.Shape  `json:"shape"`
	Secs  []leanSec  `json:"secs"`
	At    geo.V      `json:"at"`
	Extra []gen.Body `json:"extra"`
	Div   int        `json:"div"` // triangles divided so many times
}

type leanSec struct {
	H     float64 `json:"h"`
	Angle float64 `json:"angle"`
	Dir   float64 `json:"dir"`
	S     float64 `json:"s"`
}

func (l lean) spec() gen.MeshSpec {
	sh := l.Shape
	b := gen.Body{Kind: "prism", Shape: &sh, At: l.At}
	z, s := 0.0, 1.0
	x, y := 0.0, 0.0
	b.Levels = append(b.Levels, gen.Level{Z: 0, S: 1})
	for _, c := range l.Secs {
		z += c.H
		d := c.H * math.Tan(c.Angle*math.Pi/180)
		x += d * math.Cos(c.Dir*math.Pi/180)
		y += d * math.Sin(c.Dir*math.Pi/180)
		s *= c.S
		b.Levels = append(b.Levels, gen.Level{Z: z, X: x, Y: y, S: s})
	}
	return gen.MeshSpec{Bodies: append([]gen.Body{b}, l.Extra...)}
}

// at is the section, without taper, that contains both heights.
func (l lean) at(z1, z2 float64) *leanSec {
	z := 0.0
	for _, s := range l.Secs {
		if z < z1 && z2 < z+s.H && s.S == 1 {
			return &s
		}
		z += s.H
	}
	return nil
}

// least is the smallest scale of its sections.
func (l lean) least() float64 {
	least, s := 1.0, 1.0
	for _, c := range l.Secs {
		s *= c.S
		least = math.Min(least, s)
	}
	return least
}

func (l lean) build() geo.Mesh {
	m := l.spec().Build()
	for i := 0; i < l.Div; i++ {
		m = divide(m, 2)
	}
	return m
}

func drawLean(t *rapid.T, maxAngle float64) lean {
	var l lean
	switch gen.I(t, "shape", 0, 3) {
	case 0:
		l.Shape = gen.Shape{Kind: "rect", P: []float64{gen.Nice(t, "w", 3, 20, 1), gen.Nice(t, "d", 3, 20, 1)}}
	case 1:
		l.Shape = gen.DrawShape(t, "any", false)
	default:
		l.Shape = gen.Shape{Kind: "ngon", P: []float64{float64(gen.I(t, "n", 4, 16)), gen.F(t, "r", 3, 12)}}
	}
	n := gen.I(t, "secs", 1, 4)
	for i := 0; i < n; i++ {
		s := leanSec{H: gen.Nice(t, "h", 3, 15, 1), S: 1}
		if gen.P(t, "lean?", 0.75) {
			s.Angle = gen.Nice(t, "angle", 2, maxAngle, 5)
			s.Dir = gen.Nice(t, "dir", 0, 360, 15)
		}
		if gen.P(t, "taper?", 0.2) {
			s.S = gen.F(t, "taper", 0.6, 1.3)
		}
		l.Secs = append(l.Secs, s)
	}
	l.At = drawPoint(t, "at", 40)
	l.At.Z = 0
	if gen.P(t, "div?", 0.2) {
		l.Div = 1
	}
	return l
}

// ---- C32: profile ----

type profileCase struct {
	M    lean    `json:"m"`
	N    int     `json:"n"`
	Eps  float64 `json:"eps"`
	Seed uint64  `json:"seed"`
}

func genProfile(t *rapid.T) profileCase {
	return profileCase{M: drawLean(t, 70), N: gen.I(t, "n", 3, 40), Eps: gen.Pick(t, "eps", 10, 5, 1, 0.5, 0.1), Seed: gen.Seed(t, "seed")}
}

// centres of the layers: the mean of the centroids of their contours.
func centres(layers []p.Layer) []p.Point {
	var res []p.Point
	for _, l := range layers {
		var s geo.V
		for _, q := range l.Paths {
			s = s.Add(geo.FromP(p.FindCentroid(q)))
		}
		if len(l.Paths) > 0 {
			res = append(res, s.Mul(1/float64(len(l.Paths))).P())
		}
	}
	return res
}

func checkProfile(c profileCase, r *fw.Rec) error {
	m := c.M.build()
	mesh := m.Goosli()
	lo, hi := m.Range(geo.V{Z: 1})
	T := (hi - lo) / float64(c.N)
	set := baseSettings(T)
	set.Epsilon = c.Eps
	before := meshCopy(mesh)
	g := slicers.SliceByProfile(mesh, set)
	if !sameTriangles(before, mesh.Triangles) {
		return errf("the input mesh changed")
	}
	cs := centres(slicers.SliceByVector(mesh, p.AxisZ, set))
	if len(cs) < 2 {
		return nil
	}
	line := helpers.SimplifyLine(cs, c.Eps)
	var turns []gcode.RotateXZ
	for _, x := range g.Cmds {
		switch q := x.(type) {
		case gcode.RotateXZ:
			turns = append(turns, q)
		case gcode.LayersMoving:
		default:
			return errf("unexpected command %T", x)
		}
	}
	if len(turns) != len(line)-1 {
		return errf("the bed turns %d times, the profile has %d sections", len(turns), len(line)-1)
	}
	r.Tag("sections %d", len(turns))
	groups, _ := bedGroups(g)
	next := 0
	rest := mesh
	rng := gen.NewRng(c.Seed)
	for k, q := range turns {
		a, b := geo.FromP(line[k]), geo.FromP(line[k+1])
		axis := b.Sub(a).Unit()
		if math.IsNaN(q.AngleX) || math.IsNaN(q.AngleZ) {
			return errf("section %d along %v: the bed is turned by %g, tilted by %g", k, axis, q.AngleZ, q.AngleX)
		}
		if d := geo.AngleDeg(turnedXZ(axis, q.AngleX, q.AngleZ), geo.V{Z: 1}); d > 1e-3 {
			return errf("section %d along %v: with the bed turned by %g and tilted by %g it is %g degrees off the vertical", k, axis, q.AngleZ, q.AngleX, d)
		}
		if q.AngleX > 1 {
			r.NT()
			r.Tag("leans toward %s", quarter(math.Atan2(axis.Y, axis.X)*180/math.Pi))
		}
		part := rest
		var keep []halfSpace
		if k > 0 {
			keep = append(keep, halfSpace{a, geo.V{Z: 1}, false})
		}
		if k < len(turns)-1 {
			up, down, err := helpers.CutMesh(rest, p.Plane{P: line[k+1], N: p.AxisZ})
			fw.Must(err)
			rest, part = up, down
			keep = append(keep, halfSpace{b, geo.V{Z: 1}, true})
		}
		turn := func(v geo.V) geo.V { return turnedXZ(v, q.AngleX, q.AngleZ) }
		pm := geo.From(part).Map(turn)
		if len(pm) == 0 {
			continue
		}
		up := geo.V{Z: 1}
		plo, phi := pm.Range(up)
		S := (1 + absMax([]geo.V{plo3(m)})) * 1e5
		n1, n2 := layerCount(phi-plo, T)
		empty := false
		for n := n1; n <= n2 && !empty; n++ {
			empty = judgeStack(pm, up, plo, phi-plo, S, n, nil) == nil
		}
		if next == len(groups) || groups[next].X != q.AngleX || groups[next].Z != q.AngleZ {
			if empty {
				continue
			}
			return errf("section %d of %d is not printed", k, len(turns))
		}
		gr := groups[next]
		var fail error
		for n := n1; n <= n2; n++ {
			if fail = judgeStack(pm, up, plo, phi-plo, S, n, gr.Layers); fail == nil {
				break
			}
		}
		if fail != nil {
			if empty {
				continue
			}
			return errf("section %d of %d: %v", k, len(turns), fail)
		}
		next++
		whole := m.Map(turn)
		for i := range keep {
			keep[i] = keep[i].moved(turn)
		}
		for j, l := range gr.Layers {
			if len(l.Paths) == 0 || (len(gr.Layers) > 4 && rng.N(len(gr.Layers)) > 4) {
				continue
			}
			z := l.Paths[0].Points[0].Z
			if geo.NearestHeight(pm.Heights(up), z) < 1e-5 {
				continue
			}
			if err := judgeRegion(whole, keep, z, l.Paths, rng, r); err != nil {
				return errf("section %d of %d (turned %g, tilted %g), layer %d of %d at %g: %v", k, len(turns), q.AngleZ, q.AngleX, j, len(gr.Layers), z, err)
			}
		}
	}
	if next != len(groups) {
		return errf("%d sections are printed, %d expected", len(groups), next)
	}
	return nil
}

// plo3 is the corner of the box farthest from the origin.
func plo3(m geo.Mesh) geo.V {
	lo, hi := m.Box()
	s := math.Max(lo.MaxAbs(), hi.MaxAbs())
	return geo.V{X: s, Y: s, Z: s}
}

// ---- C32: modes that cut where the model overhangs ----

type overhangCase struct {
	M    lean         `json:"m"`
	Any  bool         `json:"any"`
	Mesh gen.MeshSpec `json:"mesh"`
	N    int          `json:"n"`
	Vip  bool         `json:"vip"`
	Main bool         `json:"main"` // the mode is left to the slicer
	Part string       `json:"part"` // a round foot or knob of a column which is not round, two round legs beside a round one
}

func genOverhang(t *rapid.T) overhangCase {
	c := overhangCase{N: gen.I(t, "n", 4, 30), Vip: gen.P(t, "vip", 0.5)}
	if c.Any = gen.P(t, "any", 0.3); c.Any {
		c.Mesh = gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 2, Rotate: true, Upright: true, Grid: true, Cavity: true, Shift: 40, OnBed: true})
	} else {
		c.M = drawLean(t, 75)
		c.M.Div = 0 // every cut multiplies the triangles
		c.M.Secs[len(c.M.Secs)-1].Angle = gen.Nice(t, "last", 42, 75, 1)
		if sh := c.M.Shape; c.Vip && (sh.Kind == "rect" || sh.Kind == "ngon" && sh.P[0] < 7) {
			c.Main = true
			c.Part = gen.Pick(t, "part", "", "foot", "knob")
		} else if c.Vip && sh.Kind == "ngon" && sh.P[0] > 13 {
			c.Main, c.Part = true, gen.Pick(t, "part", "legs", "short", "high")
		}
	}
	return c
}

func (c overhangCase) build() geo.Mesh {
	if c.Any {
		return c.Mesh.Build()
	}
	l := c.M
	mid, r, in := geo.V{}, 0.0, 0.0 // circles about and in the column
	if sh := l.Shape; sh.Kind == "rect" {
		mid, r, in = geo.V{X: sh.P[0] / 2, Y: sh.P[1] / 2}, math.Hypot(sh.P[0], sh.P[1])/2, math.Min(sh.P[0], sh.P[1])/2
	} else {
		r, in = sh.P[1], sh.P[1]*math.Cos(math.Pi/sh.P[0])
	}
	const gap = 1e-4
	switch c.Part {
	case "foot":
		r++
		l.Extra = []gen.Body{{Kind: "revolve", Prof: [][2]float64{{0, -1 - gap}, {r, -1 - gap}, {r, -gap}, {0, -gap}}, N: 24, At: l.At.Add(mid)}}
	case "knob":
		v := l.spec().Bodies[0].Levels[len(l.Secs)]
		r = 0.6 * in * v.S
		l.Extra = []gen.Body{{Kind: "revolve", Prof: [][2]float64{{0, v.Z + gap}, {r, v.Z + gap}, {r, v.Z + 2}, {0, v.Z + 2}}, N: 24,
			At: l.At.Add(geo.V{X: v.X, Y: v.Y}).Add(mid.Mul(v.S))}}
	}
	if c.Part == "legs" || c.Part == "short" || c.Part == "high" {
		lo, h := 0.0, l.spec().Bodies[0].Levels[len(l.Secs)].Z
		if c.Part == "high" {
			lo = h * 0.6
		} else if c.Part == "short" {
			h *= 0.4
		}
		for _, x := range []float64{-1000, 1000} {
			l.Extra = append(l.Extra, gen.Body{Kind: "revolve", Prof: [][2]float64{{0, lo}, {3, lo}, {3, h}, {0, h}}, N: 24, At: l.At.Add(geo.V{X: x})})
		}
	}
	return l.build()
}

// firstFail is the plane of the first overhang of a stack, as the slicer sees it.
func firstFail(layers []p.Layer) (int, *p.Plane) {
	for i := 1; i < len(layers); i++ {
		if pl := slicers.CalculateFails(layers[i-1], layers[i]); pl != nil {
			return i, pl
		}
	}
	return 0, nil
}

func checkOverhang(c overhangCase, r *fw.Rec) error {
	m := c.build()
	mesh := m.Goosli()
	lo, hi := m.Range(geo.V{Z: 1})
	T := (hi - lo) / float64(c.N)
	set := baseSettings(T)
	layers := slicers.SliceByVector(mesh, p.AxisZ, set)
	i, pl := firstFail(layers)
	if pl == nil {
		r.Tag("no overhang")
		if !c.Any && c.M.Shape.Kind == "ngon" && c.M.Shape.P[0] > 11 {
			for j := 1; j < len(layers); j++ {
				s := c.M.at(layers[j-1].Paths[0].Points[0].Z, layers[j].Paths[0].Points[0].Z)
				if s != nil && s.Angle > 45 {
					return errf("the column leans by %g at layer %d, it is never cut", s.Angle, j)
				}
			}
		}
		return nil
	}
	n := geo.FromV(pl.N)
	if d := geo.AngleDeg(n, geo.V{Z: 1}); math.Abs(d-tilt) > 1e-3 {
		return errf("overhang at layer %d: the cutting plane is inclined by %g degrees", i, d)
	}
	// it leans the way the overhang goes from the middle of a contour
	at := geo.FromP(pl.P)
	convex := !c.Any && c.Part != "high" && (c.M.Shape.Kind == "rect" || c.M.Shape.Kind == "ngon")
	best := math.Inf(1)
	here := false // it passes through the middle of a contour
	for _, l := range []p.Layer{layers[i-1], layers[i]} {
		for _, q := range l.Paths {
			o := at.Sub(geo.FromP(p.FindCentroid(q)))
			o.Z = 0
			if o.Len() > 1e-6 {
				d := geo.AngleDeg(o, geo.V{X: n.X, Y: n.Y})
				if !convex { // the nearest border that way may be on the other side of the middle
					d = math.Min(d, 180-d)
				}
				best = math.Min(best, d)
			} else {
				here = true
			}
		}
	}
	if best > 0.01 && !here {
		return errf("overhang at layer %d at %v: the cutting plane leans along %v, that is %g degrees beside the way from the middle of any contour", i, at, n, best)
	}
	dir := math.Atan2(n.Y, n.X) * 180 / math.Pi
	r.Tag("toward %s", quarter(dir))
	if convex && c.M.Shape.Kind == "ngon" && c.M.Shape.P[0] > 11 {
		for j := 1; j < i; j++ {
			s := c.M.at(layers[j-1].Paths[0].Points[0].Z, layers[j].Paths[0].Points[0].Z)
			if s != nil && s.Angle > 45 {
				return errf("the column leans by %g at layer %d, it is first cut at layer %d", s.Angle, j, i)
			}
		}
		s := c.M.at(layers[i-1].Paths[0].Points[0].Z, layers[i].Paths[0].Points[0].Z)
		if s != nil && s.Angle < 37 && T*math.Tan(s.Angle*math.Pi/180) < 0.3*c.M.Shape.P[1]*c.M.least() {
			return errf("the column leans by %g at layer %d, it is cut there", s.Angle, i)
		}
	}
	if s := c.M.at(lo+(float64(i)-0.5)*T, lo+(float64(i)+0.5)*T); convex && c.M.Shape.Kind == "ngon" && c.M.Shape.P[0] > 11 && s != nil && s.Angle > 45 { // a ray alone may fail below
		to := geo.V{X: math.Cos(s.Dir * math.Pi / 180), Y: math.Sin(s.Dir * math.Pi / 180)}
		if d := geo.AngleDeg(to, geo.V{X: n.X, Y: n.Y}); d > 25 {
			return errf("overhang at layer %d, where the column leans along %v: the cutting plane leans along %v, %g degrees beside", i, to, n, d)
		}
		r.Tag("round column")
	}
	var g gcode.Gcode
	var turn func(geo.V) geo.V
	if c.Main {
		g = vip.Slice(mesh, set)
		r.Tag("part %q", c.Part)
	} else if c.Vip {
		g = vip.SliceDefault2(mesh, set, layers)
	} else {
		if len(m) > 2500 {
			return nil // it looks for overhangs in a simplified model
		}
		g = slicers.Slice5Axes(mesh, set)
	}
	for k, x := range g.Cmds {
		switch q := x.(type) {
		case gcode.RotateXZ:
			turn = func(v geo.V) geo.V { return turnedXZ(v, q.AngleX, q.AngleZ) }
		case gcode.RotateZ:
			if _, ok := g.Cmds[k+1].(gcode.InclineX); !ok {
				return errf("the bed is turned by %g and not tilted", q.Angle)
			}
			turn = func(v geo.V) geo.V { return turnedXZ(v, tilt, q.Angle) }
		}
		if turn != nil {
			break
		}
	}
	if turn == nil {
		return errf("there is an overhang at layer %d, but the bed is not turned", i)
	}
	if d := geo.AngleDeg(turn(n), geo.V{Z: 1}); !(d < 1e-3) {
		return errf("the cutting plane has the normal %v, when the bed is turned it is %g degrees off the vertical", n, d)
	}
	r.NT()
	return nil
}

// ---- C32: bridges ----

type bridgeCase struct {
	Shape gen.Shape `json:"shape"`
	At    geo.V     `json:"at"`
	Phi   float64   `json:"phi"` // from the first leg to the second
	Gap   float64   `json:"gap"`
	H     float64   `json:"h"`  // straight
	H2    float64   `json:"h2"` // leaning
	A     float64   `json:"a"`
	B     float64   `json:"b"` // negative: away from the other leg
	Swap  bool      `json:"swap"`
	N     int       `json:"n"`
	Rings [2]int    `json:"rings"` // how often the straight parts are divided

	Hollow [2]float64 `json:"hollow"` // the cavities of the legs, part of their width
	First  bool       `json:"first"`  // the triangles of a cavity come before its leg
}

func genBridge(t *rapid.T) bridgeCase {
	var c bridgeCase
	if gen.P(t, "rect", 0.5) {
		c.Shape = gen.Shape{Kind: "rect", P: []float64{gen.Nice(t, "w", 2, 8, 1), gen.Nice(t, "d", 2, 8, 1)}}
	} else {
		c.Shape = gen.Shape{Kind: "ngon", P: []float64{float64(gen.I(t, "sides", 4, 16)), gen.Nice(t, "r", 2, 5, 1)}}
	}
	c.At = geo.V{X: gen.Nice(t, "x", -40, 40, 5), Y: gen.Nice(t, "y", -40, 40, 5)}
	c.Phi = gen.Nice(t, "phi", 0, 360, 15)
	c.H = gen.Nice(t, "h", 1, 10, 1)
	c.H2 = gen.Nice(t, "h2", 2, 8, 1)
	switch gen.I(t, "who", 0, 5) {
	case 0:
		c.A = gen.F(t, "a", 45, 70)
	case 1:
		c.B = gen.F(t, "b", 45, 70)
	case 2:
		c.A, c.B = gen.F(t, "a", 45, 70), gen.F(t, "b", 45, 70)
	case 3:
		c.A, c.B = gen.F(t, "a", 45, 70), gen.F(t, "b", -70, 37)
	case 4:
		c.A, c.B = gen.F(t, "a", -70, 37), gen.F(t, "b", 45, 70)
	default: // neither leans much toward the other
		c.A, c.B = gen.F(t, "a", -70, 37), gen.F(t, "b", -70, 37)
	}
	c.Gap = gen.Nice(t, "gap", 1, 10, 1)
	c.Swap = gen.P(t, "swap", 0.5)
	c.N = gen.I(t, "n", 12, 45)
	c.Rings = [2]int{gen.I(t, "rings1", 1, 3), gen.I(t, "rings2", 1, 3)}
	for i := range c.Hollow {
		if gen.P(t, "hollow", 0.25) {
			c.Hollow[i] = gen.F(t, "cavity", 0.2, 0.8)
		}
	}
	c.First = gen.P(t, "first", 0.5)
	return c
}

func (c bridgeCase) build() geo.Mesh {
	r := c.Shape.P[0]
	if c.Shape.Kind == "ngon" {
		r = c.Shape.P[1]
	}
	r = math.Max(r, c.Shape.P[1])
	far := 2*r + c.Gap + c.H2*(math.Tan(math.Max(c.A, 0)*math.Pi/180)+math.Tan(math.Max(c.B, 0)*math.Pi/180))
	way := geo.V{X: math.Cos(c.Phi * math.Pi / 180), Y: math.Sin(c.Phi * math.Pi / 180)}
	leg := func(a, dir float64, at geo.V, rings int, hollow float64) geo.Mesh {
		if a < 0 {
			a, dir = -a, dir+180
		}
		l := lean{Shape: c.Shape, At: at}
		h := c.H
		if a == 0 {
			h += c.H2
		}
		for i := 0; i < max(rings, 1); i++ {
			l.Secs = append(l.Secs, leanSec{H: h / float64(max(rings, 1)), S: 1})
		}
		if a != 0 {
			l.Secs = append(l.Secs, leanSec{H: c.H2, Angle: a, Dir: dir, S: 1})
		}
		m := l.build()
		if hollow == 0 {
			return m
		}
		l.Secs = append([]leanSec(nil), l.Secs...) // the cavity begins above the bottom and ends below the top
		l.At.Z += 0.1 * l.Secs[0].H
		l.Secs[0].H *= 0.9
		l.Secs[len(l.Secs)-1].H *= 0.9
		l.Shape.P = append([]float64(nil), l.Shape.P...)
		l.Shape.P[1] *= hollow
		if l.Shape.Kind == "rect" {
			l.Shape.P[0] *= hollow
			l.At.X += (c.Shape.P[0] - l.Shape.P[0]) / 2
			l.At.Y += (c.Shape.P[1] - l.Shape.P[1]) / 2
		}
		if c.First {
			return append(l.build().Flip(), m...)
		}
		return append(m, l.build().Flip()...)
	}
	m, n := leg(c.A, c.Phi, c.At, c.Rings[0], c.Hollow[0]), leg(c.B, c.Phi+180, c.At.Add(way.Mul(far)), c.Rings[1], c.Hollow[1])
	if c.Swap {
		m, n = n, m
	}
	return append(m, n...)
}

func checkBridge(c bridgeCase, r *fw.Rec) error {
	m := c.build()
	mesh := m.Goosli()
	T := (c.H + c.H2) / float64(c.N)
	if T*math.Tan(math.Max(math.Abs(c.A), math.Abs(c.B))*math.Pi/180) > 0.4*math.Min(c.Shape.P[0], c.Shape.P[1]) {
		r.Excluded = "thick layers"
		return nil
	}
	set := baseSettings(T)
	g := vip.Slice(mesh, set)
	var z []float64
	for k, x := range g.Cmds {
		switch q := x.(type) {
		case gcode.RotateZ:
			z = append(z, q.Angle)
			if len(z) == 1 {
				if _, ok := g.Cmds[k+1].(gcode.InclineX); !ok {
					return errf("the bed is turned by %g and not tilted", q.Angle)
				}
			}
		case gcode.RotateXZ:
			return errf("unexpected command %T", x)
		}
	}
	if math.Max(c.A, c.B) <= 37 {
		if len(z) > 0 {
			return errf("legs along %g that lean %g and %g toward each other: the bed is turned to %v", c.Phi, c.A, c.B, z)
		}
		r.Tag("gentle")
		return nil
	}
	if len(z) != 2 || z[1] != 0 {
		return errf("a bridge along %g: the bed is turned to %v", c.Phi, z)
	}
	ok := false
	for i, a := range []float64{c.A, c.B} {
		if a > 40 {
			dir := (c.Phi + 180*float64(i)) * math.Pi / 180
			n := geo.V{X: math.Cos(dir) * math.Sin(tilt*math.Pi/180), Y: math.Sin(dir) * math.Sin(tilt*math.Pi/180), Z: math.Cos(tilt * math.Pi / 180)}
			ok = ok || geo.AngleDeg(turnedXZ(n, tilt, z[0]), geo.V{Z: 1}) < 0.01
		}
	}
	if !ok {
		return errf("a bridge along %g, the legs lean %g and %g toward each other: the bed is turned by %g", c.Phi, c.A, c.B, z[0])
	}
	// it is cut where a leg starts to lean toward the other
	groups, _ := bedGroups(g)
	if len(groups) == 0 {
		return errf("nothing is printed")
	}
	var zs []float64
	for _, l := range slicers.SliceByVector(mesh, p.AxisZ, set) {
		zs = append(zs, l.Paths[0].Points[0].Z)
	}
	below, above := 0, 1
	for zs[below] < c.H-1e-6 {
		below++
	}
	for zs[above-1] < c.H+1e-6 {
		above++
	}
	if n := len(groups[0].Layers); n < below || n > above {
		return errf("the legs lean from %g on, %d layers of %g are printed before the cut", c.H, n, T)
	}
	r.NT()
	r.Tag("along %s", quarter(c.Phi))
	return nil
}

// ---- C32: solids of revolution ----

type roundCase struct {
	N    int       `json:"n"` // sides
	R    float64   `json:"r"`
	H    []float64 `json:"h"`
	A    []float64 `json:"a"` // outward
	At   geo.V     `json:"at"`
	Turn float64   `json:"turn"`
	K    int       `json:"k"`              // layers
	Bore []float64 `json:"bore,omitempty"` // of a tube: part of the radius at the ends of the sections
}

func genRound(t *rapid.T) roundCase {
	c := roundCase{N: gen.I(t, "n", 16, 40), R: gen.F(t, "r", 2, 10)}
	for i := gen.I(t, "secs", 1, 4); i > 0; i-- {
		c.H = append(c.H, gen.Nice(t, "h", 1, 8, 1))
		switch gen.I(t, "how", 0, 3) {
		case 0:
			c.A = append(c.A, gen.F(t, "a", 45, 70))
		case 1:
			c.A = append(c.A, gen.F(t, "a", 0, 37))
		default:
			c.A = append(c.A, gen.F(t, "a", -75, 37))
		}
	}
	c.At = geo.V{X: gen.Nice(t, "x", -40, 40, 5), Y: gen.Nice(t, "y", -40, 40, 5)}
	c.Turn = gen.Nice(t, "turn", 0, 30, 5)
	c.K = gen.I(t, "k", 10, 40)
	if gen.P(t, "tube", 0.4) {
		for range len(c.H) + 1 {
			c.Bore = append(c.Bore, gen.F(t, "bore", 0.2, 0.8))
		}
	}
	return c
}

// profile cuts the sections that would become too narrow.
func (c roundCase) profile() [][2]float64 {
	q := [][2]float64{{c.R, 0}}
	for i, h := range c.H {
		o := q[len(q)-1]
		r := o[0] + h*math.Tan(c.A[i]*math.Pi/180)
		q = append(q, [2]float64{math.Max(r, 1), o[1] + h})
	}
	return q
}

func (c roundCase) build() geo.Mesh {
	q := c.profile()
	var pr [][2]float64
	if c.Bore == nil {
		pr = append(append([][2]float64{{0, 0}}, q...), [2]float64{0, q[len(q)-1][1]})
	} else {
		pr = append(pr, q...)
		for i := len(q) - 1; i >= 0; i-- {
			pr = append(pr, [2]float64{q[i][0] * c.Bore[i], q[i][1]})
		}
	}
	return gen.MeshSpec{Bodies: []gen.Body{{Kind: "revolve", Prof: pr, N: c.N}}, Shift: c.At,
		Rots: []gen.Rot{{Axis: geo.V{Z: 1}, Deg: c.Turn}}}.Build()
}

func checkRound(c roundCase, r *fw.Rec) error {
	q := c.profile()
	h := q[len(q)-1][1]
	m := c.build()
	mesh := m.Goosli()
	T := h / float64(c.K)
	set := baseSettings(T)
	g := vip.Slice(mesh, set)
	plain := slicers.SliceByVector(mesh, p.AxisZ, set)
	// between which layers the border goes outward by how much at least and at most
	below, above := len(plain), len(plain) // layers printed before the cut
	for j := 1; j < len(plain); j++ {
		z1, z2 := plain[j-1].Paths[0].Points[0].Z, plain[j].Paths[0].Points[0].Z
		lo, hi := math.Inf(1), math.Inf(-1)
		for i := 1; i < len(q); i++ {
			if q[i][1] > z1-1e-6 && q[i-1][1] < z2+1e-6 {
				a := math.Atan((q[i][0]-q[i-1][0])/(q[i][1]-q[i-1][1])) * 180 / math.Pi
				lo, hi = math.Min(lo, a), math.Max(hi, a)
			}
		}
		if hi > 37 {
			below = min(below, j)
		}
		if lo > 45-1e-6 {
			above = min(above, j)
		}
	}
	var cmds []gcode.Command
	for _, x := range g.Cmds {
		if _, ok := x.(gcode.LayersMoving); !ok {
			cmds = append(cmds, x)
		}
	}
	groups, end := bedGroups(g)
	if len(cmds) == 0 {
		if above < len(plain) {
			return errf("the model widens steeply at layer %d of %d, the bed is not tilted", above, len(plain))
		}
		r.Tag("not tilted")
		return nil
	}
	if below == len(plain) {
		return errf("the model never widens steeply, but the bed moves: %v", cmds)
	}
	if len(groups) != 2 || groups[0].Tilted || !groups[1].Tilted || groups[1].Rotz != 0 || groups[1].RotXZ {
		return errf("the model widens steeply from layer %d on, there are %d parts and the bed movements %v", below, len(groups), cmds)
	}
	if end.Tilted || end.Rotz != 0 {
		return errf("the bed is left tilted")
	}
	if n := len(groups[0].Layers); n < below || n > above {
		return errf("the model widens steeply from layer %d to %d on, %d are printed before the bed is tilted", below, above, n)
	}
	r.NT()
	r.Tag("tilted, hollow %v", c.Bore != nil)
	// the rest is printed in layers across the axis of the model
	for j, l := range groups[1].Layers {
		if d := geo.AngleDeg(geo.FromV(l.Norm), geo.Rot(geo.V{Z: 1}, geo.V{X: 1}, -tilt)); !(d < 1e-3) {
			return errf("layer %d after the tilt is %g degrees off the axis of the model", j, d)
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C32", Subs: []*fw.Sub{
		fw.S("profile", 1500, genProfile, checkProfile),
		fw.S("overhang", 1500, genOverhang, checkOverhang),
		fw.S("bridge", 1000, genBridge, checkBridge),
		fw.S("round", 1200, genRound, checkRound),
		fw.S("hollow", 1000, genHollow, checkHollow),
	}})
}
