package props

import (
	"math"

	"github.com/l1va/goosli/gcode"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- C32: what is hollow inside overhangs as the solid does ----

type hollowCase struct {
	M    lean         `json:"m"`
	Cav  []hollowRing `json:"cav"` // cavity, one at each end of the sections
	Two  bool         `json:"two"` // side by side
	Side float64      `json:"side"`
	Gon  int          `json:"gon"`
	Ends [2]float64   `json:"ends"` // walls at the bottom and the top, part of the height
	Late bool         `json:"late"` // the cavity's triangles come last
	N    int          `json:"n"`    // layers
	Five bool         `json:"five"`
}

// hollowRing is a section of the cavity in parts of the incircle of the column.
type hollowRing struct {
	Off float64 `json:"off"`
	Dir float64 `json:"dir"`
	R   float64 `json:"r"`
}

func genHollow(t *rapid.T) hollowCase {
	c := hollowCase{N: gen.I(t, "n", 5, 30), Late: gen.P(t, "late", 0.5), Five: gen.P(t, "five", 0.5)}
	if gen.P(t, "rect", 0.3) {
		c.M.Shape = gen.Shape{Kind: "rect", P: []float64{gen.Nice(t, "w", 4, 20, 1), gen.Nice(t, "d", 4, 20, 1)}}
	} else {
		c.M.Shape = gen.Shape{Kind: "ngon", P: []float64{float64(gen.I(t, "sides", 4, 24)), gen.F(t, "r", 3, 12)}}
	}
	upright := gen.P(t, "upright", 0.5)
	for i := gen.I(t, "secs", 1, 4); i > 0; i-- {
		s := leanSec{H: gen.Nice(t, "h", 2, 10, 1), S: 1}
		if !upright {
			s.Angle = gen.F(t, "angle", 0, 70)
			s.Dir = gen.F(t, "dir", 0, 360)
			if gen.P(t, "taper?", 0.2) {
				s.S = gen.F(t, "taper", 0.7, 1.5)
			}
		}
		c.M.Secs = append(c.M.Secs, s)
	}
	for range len(c.M.Secs) + 1 {
		c.Cav = append(c.Cav, hollowRing{gen.F(t, "off", 0, 0.5), gen.F(t, "odir", 0, 360), gen.F(t, "cr", 0.05, 0.4)})
	}
	c.Gon = gen.I(t, "gon", 3, 14)
	c.Two, c.Side = gen.P(t, "two", 0.3), gen.F(t, "side", 0, 360)
	c.Ends = [2]float64{gen.F(t, "bottom", 0.01, 0.4), gen.F(t, "top", 0.01, 0.4)}
	c.M.At = geo.V{X: gen.F(t, "x", -40, 40), Y: gen.F(t, "y", -40, 40)}
	return c
}

func (c hollowCase) solid() gen.Body { return c.M.spec().Bodies[0] }

// cavity stays in the incircle of the column at every height, in its part of it
// if there is another one.
func (c hollowCase) cavity(side float64) gen.Body {
	b := gen.Body{Kind: "prism", Shape: &gen.Shape{Kind: "ngon", P: []float64{float64(c.Gon), 1}}, At: c.M.At, Flip: true}
	in, mid := 0.0, geo.V{}
	if sh := c.M.Shape; sh.Kind == "rect" {
		in = math.Min(sh.P[0], sh.P[1]) / 2
		mid = geo.V{X: sh.P[0] / 2, Y: sh.P[1] / 2}
	} else {
		in = sh.P[1] * math.Cos(math.Pi/sh.P[0])
	}
	lv := c.solid().Levels
	for i, l := range lv {
		h := c.Cav[i]
		k := l
		if i == 0 { // the column is higher than the cavity
			f := c.Ends[0]
			n := lv[1]
			k = gen.Level{Z: l.Z + f*(n.Z-l.Z), X: l.X + f*(n.X-l.X), Y: l.Y + f*(n.Y-l.Y), S: l.S + f*(n.S-l.S)}
		} else if i == len(lv)-1 {
			f := c.Ends[1]
			n := lv[i-1]
			k = gen.Level{Z: l.Z + f*(n.Z-l.Z), X: l.X + f*(n.X-l.X), Y: l.Y + f*(n.Y-l.Y), S: l.S + f*(n.S-l.S)}
		}
		a := h.Dir * math.Pi / 180
		if side != 0 {
			h.Off /= 5
		}
		k.X += side * 0.5 * in * k.S * math.Cos(c.Side*math.Pi/180)
		k.Y += side * 0.5 * in * k.S * math.Sin(c.Side*math.Pi/180)
		b.Levels = append(b.Levels, gen.Level{Z: k.Z, S: h.R * in * k.S,
			X: k.X + k.S*(mid.X+h.Off*in*math.Cos(a)), Y: k.Y + k.S*(mid.Y+h.Off*in*math.Sin(a))})
	}
	return b
}

func firstTurn(g gcode.Gcode) (turned bool, angle float64) {
	for _, x := range g.Cmds {
		switch q := x.(type) {
		case gcode.RotateXZ:
			return true, q.AngleZ
		case gcode.RotateZ:
			return true, q.Angle
		}
	}
	return false, 0
}

func checkHollow(c hollowCase, r *fw.Rec) error {
	bodies := []gen.Body{c.cavity(0)}
	if c.Two {
		bodies = []gen.Body{c.cavity(-1), c.cavity(1)}
	}
	if c.Late {
		bodies = append([]gen.Body{c.solid()}, bodies...)
	} else {
		bodies = append(bodies, c.solid())
	}
	hollow := gen.MeshSpec{Bodies: bodies}.Build()
	solid := gen.MeshSpec{Bodies: []gen.Body{c.solid()}}.Build()
	lo, hi := solid.Range(geo.V{Z: 1})
	T := (hi - lo) / float64(c.N)
	set := baseSettings(T)
	slice := func(m geo.Mesh) []p.Layer { return slicers.SliceByVector(m.Goosli(), p.AxisZ, set) }
	a, b := slice(hollow), slice(solid)
	// stretched and flattened by a hair: is the answer sure?
	var near [2][]p.Layer
	for i, k := range []float64{1 - 1e-6, 1 + 1e-6} {
		near[i] = slice(solid.Map(func(v geo.V) geo.V {
			return geo.V{X: c.M.At.X + (v.X-c.M.At.X)*k, Y: c.M.At.Y + (v.Y-c.M.At.Y)/k, Z: v.Z}
		}))
	}
	if len(a) != len(b) || len(near[0]) != len(b) || len(near[1]) != len(b) {
		r.Tag("other layers")
		return nil
	}
	same := func(x, y *p.Plane) bool {
		return (x == nil) == (y == nil) && (x == nil || geo.AngleDeg(geo.FromV(x.N), geo.FromV(y.N)) < 0.1 &&
			math.Abs(geo.FromP(x.P).Sub(geo.FromP(y.P)).Dot(geo.FromV(y.N))) < 0.01)
	}
	cut, holes, sure := false, 0, true
	for i := 1; i < len(b); i++ {
		if len(a[i-1].Paths) > 1 || len(a[i].Paths) > 1 {
			holes++
		}
		want := slicers.CalculateFails(b[i-1], b[i])
		if !same(want, slicers.CalculateFails(near[0][i-1], near[0][i])) || !same(want, slicers.CalculateFails(near[1][i-1], near[1][i])) {
			sure = false
			r.Count("layers not sure", 1)
			continue
		}
		if got := slicers.CalculateFails(a[i-1], a[i]); !same(got, want) {
			return errf("layer %d: the hollow column is cut by %v, the solid one by %v", i, got, want)
		}
		if want != nil {
			cut = true
			break
		}
	}
	if holes == 0 {
		r.Tag("no layer meets the cavity")
		return nil
	}
	r.NT()
	r.Tag("cut %v, two %v", cut, c.Two)
	if !sure || len(hollow) > 2500 {
		return nil
	}
	run := func(m geo.Mesh, ls []p.Layer) gcode.Gcode {
		if c.Five {
			return slicers.Slice5Axes(m.Goosli(), set)
		}
		return vip.SliceDefault2(m.Goosli(), set, ls)
	}
	ta, aa := firstTurn(run(hollow, a))
	tb, ab := firstTurn(run(solid, b))
	if ta != tb || ta && math.Abs(math.Remainder(aa-ab, 360)) > 0.1 {
		return errf("the bed is turned %v (%g) for the hollow column, %v (%g) for the solid one", ta, aa, tb, ab)
	}
	if ta != cut {
		return errf("there is an overhang: %v, the bed is turned: %v", cut, ta)
	}
	return nil
}
