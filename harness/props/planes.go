package props

import (
	"fmt"
	"math"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// bedGroup is a run of layers printed without bed movement in between.
type bedGroup struct {
	Rotz    float64
	Tilted  bool
	X, Z    float64 // arguments of the last RotateXZ
	Layers  []p.Layer
	RotXZ   bool // preceded by a RotateXZ
	Command int  // bed commands directly before
}

// bedGroups follows the commands; layer numbers starting again also start a group.
func bedGroups(g gcode.Gcode) ([]bedGroup, bedGroup) {
	var res []bedGroup
	st := bedGroup{}
	for _, c := range g.Cmds {
		switch x := c.(type) {
		case gcode.RotateZ:
			st.Rotz = x.Angle
			st.Command++
		case gcode.InclineX:
			st.Tilted = true
			st.Command++
		case gcode.InclineXBack:
			st.Tilted = false
			st.Command++
		case gcode.RotateXZ:
			st.X, st.Z = x.AngleX, x.AngleZ
			st.RotXZ = true
			st.Command++
		case gcode.LayersMoving:
			for _, l := range x.Layers {
				n := len(res)
				if st.Command > 0 || n == 0 || l.Order <= res[n-1].Layers[len(res[n-1].Layers)-1].Order {
					res = append(res, st)
					n++
					st.Command = 0
				}
				res[n-1].Layers = append(res[n-1].Layers, l)
			}
		default:
			fw.Assert(false, "unknown command %T", c)
		}
	}
	return res, st
}

// halfSpace is kept by a cut: in front of the plane (or behind it).
type halfSpace struct {
	P, N geo.V
	Back bool
}

func (h halfSpace) depth(q geo.V) float64 {
	d := q.Sub(h.P).Dot(h.N)
	if h.Back {
		return -d
	}
	return d
}

func (h halfSpace) moved(f func(geo.V) geo.V) halfSpace {
	p := f(h.P)
	return halfSpace{p, f(h.P.Add(h.N)).Sub(p).Unit(), h.Back}
}

// judgeRegion: the contours in the horizontal plane z bound the section of the
// part of m inside all half-spaces. Returns how many points inside were judged.
func judgeRegion(m geo.Mesh, cuts []halfSpace, z float64, paths []p.Path, rng *gen.Rng, r *fw.Rec) error {
	lo, hi := m.Box()
	size := hi.Sub(lo).MaxAbs()
	S := size + lo.MaxAbs() + hi.MaxAbs()
	near := 2e-5 + 1e-7*S
	f := geo.NewFrame(geo.V{Z: z}, geo.V{Z: 1})
	segs := m.SectionSegments(f)
	short := math.Inf(1)
	for _, s := range segs {
		short = math.Min(short, s[0].Dist(s[1]))
	}
	near = math.Max(near, 4e-6/math.Max(short, 1e-3))
	var loops []geo.Loop
	for i, pth := range paths {
		for _, q := range pth.Points {
			if !geo.FromP(q).Finite() || math.Abs(q.Z-z) > 1e-6 {
				return errf("contour %d leaves the layer at %g: %v", i, z, q)
			}
		}
		if len(pth.Points) < 3 || !geo.Closed(pth, 1e-5) {
			// slivers along a cut may end in rounding
			l := 0.0
			for k := 1; k < len(pth.Points); k++ {
				l += pth.Points[k].DistanceTo(pth.Points[k-1])
			}
			if l > 1e-3 {
				return errf("contour %d of length %g is open: %v to %v", i, l, pth.Points[0], pth.Points[len(pth.Points)-1])
			}
			continue
		}
		loops = append(loops, geo.PathLoop(f, pth))
	}
	var probes []geo.V
	beside := func(a, b geo.V) {
		d := b.Sub(a)
		if d.Len() < 1e-5 {
			return
		}
		side := d.Cross(f.N).Unit()
		mid := a.Add(d.Mul(0.1 + 0.8*rng.F()))
		o := []float64{2e-4, 1e-2}[rng.N(2)] * math.Max(size, 1)
		probes = append(probes, mid.Add(side.Mul(o)), mid.Sub(side.Mul(o)))
	}
	for k := 0; k < 6; k++ {
		probes = append(probes, geo.V{X: lo.X + (hi.X-lo.X)*rng.F(), Y: lo.Y + (hi.Y-lo.Y)*rng.F(), Z: z})
	}
	for k := 0; k < 6 && len(loops) > 0; k++ {
		l := loops[rng.N(len(loops))]
		i := rng.N(len(l))
		beside(f.From(l[i]), f.From(l[(i+1)%len(l)]))
	}
	for k := 0; k < 6 && len(segs) > 0; k++ {
		s := segs[rng.N(len(segs))]
		beside(s[0], s[1])
	}
	for _, c := range cuts { // beside the cut
		w := c.N.Cross(f.N)
		if w.Len() < 1e-9 {
			continue
		}
		w = w.Unit()
		o := geo.V{X: c.P.X, Y: c.P.Y, Z: z}
		flat := geo.V{X: c.N.X, Y: c.N.Y}
		o = o.Sub(flat.Mul(o.Sub(c.P).Dot(c.N) / flat.Dot(flat)))
		t := (lo.Add(hi).Mul(0.5)).Sub(o).Dot(w) + size*(rng.F()-0.5)
		q := o.Add(w.Mul(t))
		beside(q.Sub(w.Mul(0.01)), q.Add(w.Mul(0.01)))
	}
	for _, q := range probes {
		deep := true
		skip := m.Dist(q) < near
		for _, c := range cuts {
			d := c.depth(q)
			skip = skip || math.Abs(d) < near
			deep = deep && d > 0
		}
		if skip {
			continue
		}
		want := 0
		if deep {
			want = int(math.Round(m.Winding(q)))
		}
		got := 0
		for _, l := range loops {
			got += l.Winding(f.To(q))
		}
		if want != 0 {
			r.Count("points inside", 1)
		} else {
			r.Count("points outside", 1)
		}
		if got != -want {
			return errf("point %v is %d times inside the part, but its contours wind %d times around it (clockwise counts -1)", q, want, got)
		}
	}
	return nil
}

func fillAngles(kind string) []float64 {
	switch kind {
	case "Squares":
		return []float64{45, 135}
	case "Triangles":
		return []float64{0, 60, 120}
	}
	return []float64{0}
}

// sure is the length of a chord if it is not so short that it may be missing.
func sure(c ival) float64 {
	if c.b-c.a < 0.02 {
		return 0
	}
	return c.b - c.a
}

// judgeFamilies: the fill of a layer consists of the chords of its region on
// families of equally spaced planes, wherever a family starts.
func judgeFamilies(reg []geo.Loop, z float64, fill []p.Path, angles []float64, step float64, r *fw.Rec) error {
	var planes []p.Plane
	for _, a := range angles {
		u := geo.P2{X: math.Cos(a * math.Pi / 180), Y: math.Sin(a * math.Pi / 180)}
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, l := range reg {
			for _, q := range l {
				lo, hi = math.Min(lo, q.Dot(u)), math.Max(hi, q.Dot(u))
			}
		}
		if hi < lo {
			continue
		}
		h0, found := 0.0, false
		for _, f := range fill {
			if len(f.Points) != 2 {
				return errf("fill line with %d points", len(f.Points))
			}
			a, b := geo.P2{X: f.Points[0].X, Y: f.Points[0].Y}, geo.P2{X: f.Points[1].X, Y: f.Points[1].Y}
			if math.Abs(a.Sub(b).Dot(u)) < 1e-6 && a.Dist(b) > 0.01 {
				h0, found = a.Dot(u), true
				break
			}
		}
		if !found {
			// this family starts where it meets next to nothing, if there is such a place
			var hs []float64
			for k := 0; k < 128; k++ {
				hs = append(hs, lo+step*(float64(k)+0.5)/128)
			}
			for _, l := range reg {
				for _, q := range l {
					hs = append(hs, lo+math.Mod(q.Dot(u)-lo, step))
				}
			}
			best := math.Inf(1)
			for _, h := range hs {
				sum := 0.0
				for x := h; x < hi+1e-6; x += step {
					up, down := 0.0, 0.0
					for _, c := range chord(reg, u, x-1e-6) {
						down += sure(c)
					}
					for _, c := range chord(reg, u, x+1e-6) {
						up += sure(c)
					}
					sum += math.Min(up, down) // at a border the plane may be on either side
				}
				if sum < best {
					best, h0 = sum, h
				}
			}
			if best > 0.1+step/8 {
				return errf("no fill lines across %g degrees, wherever they are %g is to be filled", a, best)
			}
			continue
		}
		n := math.Ceil((lo - h0) / step)
		for h := h0 + n*step - step; h < hi+step; h += step {
			planes = append(planes, p.Plane{P: geo.V{X: u.X * h, Y: u.Y * h}.P(), N: geo.V{X: u.X, Y: u.Y}.Vec()})
		}
	}
	var long []p.Path
	for _, f := range fill {
		if len(f.Points) == 2 && f.Points[0].DistanceTo(f.Points[1]) > 0.01 {
			long = append(long, f)
		}
	}
	return judgeFillSlack(reg, planes, z, long, 0.02, r)
}

type planesMode struct {
	M      gen.MeshSpec `json:"m"`
	Auto   bool         `json:"auto"` // the planes the analyser suggests
	Angle  float64      `json:"angle"`
	Planes []cutPlane   `json:"planes"`
	Center geo.V        `json:"center"`
	N      int          `json:"n"` // layers over the height of the model
	Line   float64      `json:"line"`
	Walls  int          `json:"walls"`
	Type   string       `json:"type"`
	Dens   int          `json:"dens"`
	Top    int          `json:"top"`
	Bot    int          `json:"bot"`
	Skirt  int          `json:"skirt"`
	Seed   uint64       `json:"seed"`
}

// cutPlane passes through the box of the model at these fractions.
type cutPlane struct {
	F      geo.V   `json:"f"`
	Tilted bool    `json:"tilted"`
	Rotz   float64 `json:"rotz"`
}

func genPlanesMode(t *rapid.T) planesMode {
	var c planesMode
	c.M = gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 2, Rotate: true, Upright: true, Grid: true, Cavity: true, Shift: 40, OnBed: !gen.P(t, "float", 0.1)})
	c.Auto = gen.P(t, "auto", 0.25)
	c.Angle = gen.Pick(t, "angle", 30.0, 45, 20, 60)
	if !c.Auto {
		for i := gen.I(t, "np", 0, 4); i > 0; i-- {
			var q cutPlane
			q.F = geo.V{X: gen.F(t, "fx", 0.1, 0.9), Y: gen.F(t, "fy", 0.1, 0.9), Z: gen.F(t, "fz", 0.05, 0.95)}
			if gen.P(t, "out", 0.1) {
				q.F.Z = gen.Pick(t, "fzo", -0.5, 1.3)
			}
			q.Tilted = gen.P(t, "tilted", 0.6)
			if q.Tilted || gen.P(t, "turned", 0.2) {
				q.Rotz = gen.Nice(t, "rotz", -360, 360, 15)
			}
			c.Planes = append(c.Planes, q)
		}
	}
	switch gen.I(t, "ck", 0, 2) {
	case 1:
		c.Center = geo.V{Z: gen.F(t, "cz", -50, 50)}
	case 2:
		c.Center = drawPoint(t, "c", 60)
	}
	c.N = gen.I(t, "n", 3, 16)
	c.Line = gen.Pick(t, "line", 0.4, 0.4, 0.8, 1, 0.5)
	c.Walls = gen.Pick(t, "walls", 1, 1, 2, 3)
	c.Type = gen.Pick(t, "type", "Lines", "Squares", "Triangles")
	c.Dens = gen.Pick(t, "dens", 20, 10, 25, 33, 50, 100)
	c.Top, c.Bot = gen.Pick(t, "top", 0, 0, 1, 2), gen.Pick(t, "bot", 0, 0, 1, 2)
	c.Skirt = gen.Pick(t, "skirt", 0, 0, 1, 3)
	c.Seed = gen.Seed(t, "seed")
	return c
}

func (c planesMode) settings(t float64) slicers.Settings {
	set := baseSettings(t)
	set.GcodeSettings.LineWidth = c.Line
	set.WallThickness = c.Line * float64(c.Walls)
	set.FillingType, set.FillDensity = c.Type, c.Dens
	set.TopLayers, set.BottomLayers = c.Top, c.Bot
	set.SkirtLineCount = c.Skirt
	set.RotationCenter = c.Center.P()
	return set
}

func checkPlanesMode(c planesMode, r *fw.Rec) error {
	m := c.M.Build()
	mesh := m.Goosli()
	lo, hi := m.Box()
	var cuts []vip.AnalyzedPlane
	if c.Auto {
		for _, q := range vip.Analyze(mesh, c.Angle) {
			cuts = append(cuts, vip.ParsePlane(q.String())) // as read back from the file
		}
		r.Tag("planes of the analyser")
	}
	for _, q := range c.Planes {
		at := geo.V{X: lo.X + (hi.X-lo.X)*q.F.X, Y: lo.Y + (hi.Y-lo.Y)*q.F.Y, Z: lo.Z + (hi.Z-lo.Z)*q.F.Z}
		cuts = append(cuts, vip.ParsePlane(fmt.Sprintf("X%.3f Y%.3f Z%.3f T%v R%.3f", at.X, at.Y, at.Z, q.Tilted, q.Rotz)))
	}
	var lines []planeLine
	for _, q := range cuts {
		l, err := parsePlaneLine(q.String())
		if err != nil {
			return err
		}
		// as precise as the slicer knows it
		l.P = geo.FromP(q.P)
		lines = append(lines, l)
	}
	size := hi.Sub(lo)
	T := math.Max(size.Z, size.MaxAbs()/2) / float64(c.N)
	set := c.settings(T)
	before := meshCopy(mesh)
	g := vip.SliceByPlanes(mesh, set, cuts)
	if !sameTriangles(before, mesh.Triangles) {
		return errf("the input mesh changed")
	}
	groups, _ := bedGroups(g)
	total := 0
	for _, gr := range groups {
		total += len(gr.Layers)
	}
	if n := g.LayerCount(); n != total {
		return errf("%d layers, %d reported", total, n)
	}
	r.Tag("planes %d", len(cuts))
	// the parts, from the last plane on
	parts := make([]geo.Mesh, len(cuts)+1)
	rest := mesh
	for i := len(cuts) - 1; i >= 0; i-- {
		up, down, err := helpers.CutMesh(rest, p.Plane{P: cuts[i].P, N: cuts[i].N})
		fw.Must(err)
		parts[i+1] = geo.From(up)
		rest = down
	}
	parts[0] = geo.From(rest)
	rng := gen.NewRng(c.Seed)
	next := 0
	judged := 0
	for i, part := range parts {
		b := planeLine{}
		if i > 0 {
			b = lines[i-1]
		}
		move := func(v geo.V) geo.V { return bedTurned(v.Sub(c.Center), b.Rotz, b.Tilted).Add(c.Center) }
		pm := part.Map(move)
		up := geo.V{Z: 1}
		tiny := len(pm) == 0
		var plo, phi float64
		if !tiny {
			plo, phi = pm.Range(up)
			tiny = phi-plo < 1e-4 || math.Abs(pm.Volume()) < 1e-5*pm.Area()
		}
		if len(pm) == 0 {
			continue
		}
		S := (1 + absMax([]geo.V{lo, hi, c.Center})) * 1e5 // plane lines are read in single precision
		n1, n2 := layerCount(phi-plo, T)
		empty := tiny // or all its layers are
		for n := n1; n <= n2 && !empty; n++ {
			empty = judgeStack(pm, up, plo, phi-plo, S, n, nil) == nil
		}
		if next == len(groups) || math.Abs(groups[next].Rotz-b.Rotz) > 0.00051 || groups[next].Tilted != b.Tilted {
			if empty {
				continue
			}
			if next == len(groups) {
				return errf("part %d of %d (%d triangles, volume %g) is not printed", i, len(parts), len(pm), pm.Volume())
			}
			return errf("part %d of %d is to be printed with the bed turned by %g and tilted: %v; it is turned by %g and tilted: %v", i, len(parts), b.Rotz, b.Tilted, groups[next].Rotz, groups[next].Tilted)
		}
		gr := groups[next]
		layers := append([]p.Layer{}, gr.Layers...)
		skirted := i == 0 && c.Skirt > 0
		if skirted && len(layers) > 0 {
			// the skirt comes before each contour; what is left are the contours
			ref := slicers.SliceByVector(rest, p.AxisZ, set)
			if len(ref) == 0 && empty {
				continue
			}
			if len(ref) == 0 {
				return errf("part 0 has layers but should not")
			}
			want := vip.SkirtPathes(ref[0], c.Skirt, c.Line).Paths
			if len(want) != len(layers[0].Paths) {
				return errf("first layer has %d paths, with %d skirt lines around %d contours it should have %d", len(layers[0].Paths), c.Skirt, len(ref[0].Paths), len(want))
			}
			for k := range want {
				if !samePoints(want[k], layers[0].Paths[k]) {
					return errf("path %d of the first layer differs from the skirt and contours", k)
				}
			}
			layers[0].Paths = ref[0].Paths
			r.Tag("skirt")
		}
		var fail error
		for n := n1; n <= n2; n++ {
			if fail = judgeStack(pm, up, plo, phi-plo, S, n, layers); fail == nil {
				break
			}
		}
		if fail != nil {
			if empty {
				continue // a sliver, not printed, but the next one is
			}
			return errf("part %d of %d: %v", i, len(parts), fail)
		}
		next++
		// the whole model in this position, and the planes between which the part lies
		whole := m.Map(move)
		var keep []halfSpace
		for k, l := range lines {
			if i > 0 && k < i-1 {
				continue
			}
			keep = append(keep, halfSpace{l.P, l.normal(), k != i-1}.moved(move))
		}
		if tiny {
			continue
		}
		judged++
		for k, l := range layers {
			if len(layers) > 4 && k > 1 && k < len(layers)-2 && rng.N(len(layers)) > 3 {
				continue
			}
			if len(l.Paths) == 0 {
				continue
			}
			z := l.Paths[0].Points[0].Z
			hs := 1.0
			if len(lines) > 0 {
				hs = geo.NearestHeight(pm.Heights(up), z)
			}
			if hs > 1e-5 {
				if err := judgeRegion(whole, keep, z, l.Paths, rng, r); err != nil {
					return errf("part %d of %d (turned %g, tilted %v), layer %d of %d at %g: %v", i, len(parts), b.Rotz, b.Tilted, k, len(layers), z, err)
				}
			}
			// walls as for any layer
			if err := judgeWalls(l, set); err != nil {
				return errf("part %d of %d, layer %d: %v", i, len(parts), k, err)
			}
			reg := fillRegion(l)
			if reg == nil {
				continue
			}
			blo, bhi := pm.Box()
			outside := false
			for _, l := range reg {
				for _, q := range l {
					outside = outside || q.X < blo.X-1e-6 || q.X > bhi.X+1e-6 || q.Y < blo.Y-1e-6 || q.Y > bhi.Y+1e-6
				}
			}
			if outside { // there is no room for the walls
				r.Count("fill not judged, walls outside the part", 1)
				continue
			}
			angles, step := fillAngles(c.Type), c.Line
			solid := k < c.Bot || k >= len(layers)-c.Top
			if solid {
				angles = []float64{0}
			} else {
				step = c.Line * 100 / float64(c.Dens) * float64(len(angles))
			}
			if err := judgeFamilies(reg, z, l.Fill, angles, step, r); err != nil {
				return errf("part %d of %d (turned %g, tilted %v), layer %d of %d, %s %d%%, solid %v, spacing %g: %v", i, len(parts), b.Rotz, b.Tilted, k, len(layers), c.Type, c.Dens, solid, step, err)
			}
		}
	}
	if next != len(groups) {
		return errf("%d parts are printed, %d expected", len(groups), next)
	}
	if judged > 1 {
		r.NT()
		r.Tag("parts %d", judged)
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C30", Subs: []*fw.Sub{
		fw.S("planes", 2500, genPlanesMode, checkPlanesMode),
	}})
}
