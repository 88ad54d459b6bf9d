package props

import (
	"math"

	"github.com/l1va/goosli/gcode"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- C37: walls, infill and solid layers in the orientations the vip mode chooses ----

type preparedCase struct {
	Kind   string       `json:"kind"`
	Over   overhangCase `json:"over"`
	Bridge bridgeCase   `json:"bridge"`
	Round  roundCase    `json:"round"`
	N      int          `json:"n"`
	Line   float64      `json:"line"`
	Walls  int          `json:"walls"`
	Type   string       `json:"type"`
	Dens   int          `json:"dens"`
	Top    int          `json:"top"`
	Bot    int          `json:"bot"`
	Seed   uint64       `json:"seed"`
}

func genPrepared(t *rapid.T) preparedCase {
	var c preparedCase
	switch c.Kind = gen.Pick(t, "kind", "overhang", "bridge", "round"); c.Kind {
	case "overhang":
		c.Over = genOverhang(t)
	case "bridge":
		c.Bridge = genBridge(t)
	default:
		c.Round = genRound(t)
	}
	if gen.P(t, "centred", 0.4) { // the fill planes of the upright model reach least far
		c.Over.M.At, c.Bridge.At, c.Round.At = geo.V{}, geo.V{}, geo.V{}
	}
	c.N = gen.I(t, "n", 5, 30)
	c.Line = gen.Pick(t, "line", 0.4, 0.4, 0.8, 1, 0.5)
	c.Walls = gen.Pick(t, "walls", 1, 1, 2, 3)
	c.Type = gen.Pick(t, "type", "Lines", "Squares", "Triangles")
	c.Dens = gen.Pick(t, "dens", 20, 10, 25, 33, 50, 100)
	c.Top, c.Bot = gen.Pick(t, "top", 0, 0, 1, 2), gen.Pick(t, "bot", 0, 0, 1, 2)
	c.Seed = gen.Seed(t, "seed")
	return c
}

func (c preparedCase) build() geo.Mesh {
	switch c.Kind {
	case "overhang":
		return c.Over.build()
	case "bridge":
		return c.Bridge.build()
	}
	return c.Round.build()
}

func checkPrepared(c preparedCase, r *fw.Rec) error {
	m := c.build()
	mesh := m.Goosli()
	lo, hi := m.Range(geo.V{Z: 1})
	set := baseSettings((hi - lo) / float64(c.N))
	set.GcodeSettings.LineWidth = c.Line
	set.WallThickness = c.Line * float64(c.Walls)
	set.FillingType, set.FillDensity = c.Type, c.Dens
	set.TopLayers, set.BottomLayers = c.Top, c.Bot
	g := vip.Slice(mesh, set)
	rng := gen.NewRng(c.Seed)
	st := bedGroup{}
	part := 0
	for _, x := range g.Cmds {
		switch q := x.(type) {
		case gcode.RotateZ:
			st.Rotz = q.Angle
		case gcode.InclineX:
			st.Tilted = true
		case gcode.InclineXBack:
			st.Tilted = false
		case gcode.RotateXZ:
			return errf("unexpected command %T", x)
		case gcode.LayersMoving:
			part++
			for k, l := range q.Layers {
				if len(q.Layers) > 6 && k > 1 && k < len(q.Layers)-2 && rng.N(len(q.Layers)) > 4 {
					continue
				}
				if err := judgePrepared(l, k, len(q.Layers), set, c.Line, r); err != nil {
					return errf("set %d of layers (bed turned by %g, tilted: %v), layer %d of %d, %d walls, %s %d%%, solid below %d above %d: %v",
						part, st.Rotz, st.Tilted, k, len(q.Layers), c.Walls, c.Type, c.Dens, c.Bot, c.Top, err)
				}
			}
			if st.Tilted && len(q.Layers) > 0 {
				r.NT()
				r.Tag("%s tilted", c.Kind)
			}
		}
	}
	return nil
}

// judgePrepared: layer k of n has the walls and the infill of the settings.
func judgePrepared(l p.Layer, k, n int, set slicers.Settings, line float64, r *fw.Rec) error {
	if len(l.Paths) == 0 {
		return nil
	}
	if err := judgeWalls(l, set); err != nil {
		return err
	}
	if geo.AngleDeg(geo.FromV(l.Norm), geo.V{Z: 1}) > 1 { // the layers are tilted together with the bed
		l = turnedLayer(l, func(v geo.V) geo.V { return geo.Rot(v, geo.V{X: 1}, tilt) })
	}
	reg := fillRegion(l)
	if reg == nil {
		return nil
	}
	blo, bhi := geo.P2{X: math.Inf(1), Y: math.Inf(1)}, geo.P2{X: math.Inf(-1), Y: math.Inf(-1)}
	for _, q := range l.Paths {
		for _, v := range q.Points {
			blo = geo.P2{X: math.Min(blo.X, v.X), Y: math.Min(blo.Y, v.Y)}
			bhi = geo.P2{X: math.Max(bhi.X, v.X), Y: math.Max(bhi.Y, v.Y)}
		}
	}
	for _, q := range reg {
		for _, v := range q {
			if v.X < blo.X-1e-6 || v.X > bhi.X+1e-6 || v.Y < blo.Y-1e-6 || v.Y > bhi.Y+1e-6 {
				r.Count("fill not judged, walls outside the contours", 1)
				return nil
			}
		}
	}
	angles, step := fillAngles(set.FillingType), line
	solid := k < set.BottomLayers || k >= n-set.TopLayers
	if solid {
		angles = []float64{0}
		r.Count("solid layers", 1)
	} else {
		step = line * 100 / float64(set.FillDensity) * float64(len(angles))
		r.Count("layers", 1)
	}
	if err := judgeFamilies(reg, l.Paths[0].Points[0].Z, l.Fill, angles, step, r); err != nil {
		return errf("spacing %g: %v", step, err)
	}
	return nil
}

// judgeWalls: the layer has the walls it has on its own (C17 judges those).
func judgeWalls(l p.Layer, set slicers.Settings) error {
	ref := vip.PrepareLayers([]p.Layer{{Order: l.Order, Norm: l.Norm, Paths: l.Paths}}, set, nil, nil)[0]
	if len(ref.MiddlePs) != len(l.MiddlePs) || len(ref.InnerPs) != len(l.InnerPs) {
		return errf("%d middle and %d inner walls, expected %d and %d", len(l.MiddlePs), len(l.InnerPs), len(ref.MiddlePs), len(ref.InnerPs))
	}
	for j := range ref.InnerPs {
		if !samePoints(ref.InnerPs[j], l.InnerPs[j]) {
			return errf("inner wall %d differs", j)
		}
	}
	for j := range ref.MiddlePs {
		if !samePoints(ref.MiddlePs[j], l.MiddlePs[j]) {
			return errf("middle wall %d differs", j)
		}
	}
	return nil
}

// turnedLayer is a copy of the layer moved by f.
func turnedLayer(l p.Layer, f func(geo.V) geo.V) p.Layer {
	paths := func(ps []p.Path) []p.Path {
		var res []p.Path
		for _, q := range ps {
			o := p.Path{}
			for _, v := range q.Points {
				o.Points = append(o.Points, f(geo.FromP(v)).P())
			}
			res = append(res, o)
		}
		return res
	}
	l.Paths, l.MiddlePs, l.InnerPs, l.Fill = paths(l.Paths), paths(l.MiddlePs), paths(l.InnerPs), paths(l.Fill)
	l.Norm = f(geo.FromV(l.Norm)).Vec()
	return l
}

func init() {
	fw.Register(&fw.Prop{ID: "C37", Subs: []*fw.Sub{
		fw.S("prepared", 2500, genPrepared, checkPrepared),
	}})
}
