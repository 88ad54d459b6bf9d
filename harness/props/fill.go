package props

import (
	"math"
	"sort"

	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

type ival struct{ a, b float64 }

// chord is where the line n.x = h (n unit) runs inside the even-odd region of
// the loops, as intervals along the direction (n.Y, -n.X).
func chord(loops []geo.Loop, n geo.P2, h float64) []ival {
	w := geo.P2{X: n.Y, Y: -n.X}
	var xs []float64
	for _, l := range loops {
		for i := range l {
			p, q := l[i], l[(i+1)%len(l)]
			a, b := p.Dot(n)-h, q.Dot(n)-h
			if (a >= 0) != (b >= 0) {
				xs = append(xs, p.Add(q.Sub(p).Mul(a/(a-b))).Dot(w))
			}
		}
	}
	sort.Float64s(xs)
	var res []ival
	for i := 0; i+1 < len(xs); i += 2 {
		res = append(res, ival{xs[i], xs[i+1]})
	}
	return res
}

func covered(is []ival, x float64) int {
	n := 0
	for _, i := range is {
		if i.a <= x && x <= i.b {
			n++
		}
	}
	return n
}

func regionDist(ls []geo.Loop, q geo.P2) float64 {
	d := math.Inf(1)
	for _, l := range ls {
		d = math.Min(d, l.Dist(q))
	}
	return d
}

// judgeFill: the fill lines of a layer are exactly the chords of the region on the planes.
func judgeFill(region []geo.Loop, planes []p.Plane, z float64, fill []p.Path, r *fw.Rec) error {
	return judgeFillSlack(region, planes, z, fill, 2e-4, r)
}

// judgeFillSlack: chords up to the given length may be missing.
func judgeFillSlack(region []geo.Loop, planes []p.Plane, z float64, fill []p.Path, slack float64, r *fw.Rec) error {
	const delta, tol = 1e-6, 2e-5
	for k, f := range fill {
		if len(f.Points) != 2 {
			return errf("fill line %d has %d points", k, len(f.Points))
		}
		for _, q := range f.Points {
			if !geo.FromP(q).Finite() || math.Abs(q.Z-z) > 1e-6 {
				return errf("fill line %d leaves the layer at %g: %v", k, z, q)
			}
		}
	}
	on := make([]bool, len(fill))
	for pi, pl := range planes {
		n := geo.P2{X: pl.N.X, Y: pl.N.Y}
		n = n.Mul(1 / n.Len())
		h := geo.P2{X: pl.P.X, Y: pl.P.Y}.Dot(n)
		w := geo.P2{X: n.Y, Y: -n.X}
		var got []ival
		for k, f := range fill {
			a, b := geo.P2{X: f.Points[0].X, Y: f.Points[0].Y}, geo.P2{X: f.Points[1].X, Y: f.Points[1].Y}
			if math.Abs(a.Dot(n)-h) > 1e-6 || math.Abs(b.Dot(n)-h) > 1e-6 {
				continue
			}
			on[k] = true
			x, y := a.Dot(w), b.Dot(w)
			if x > y {
				x, y = y, x
			}
			if y-x > 1e-4 {
				got = append(got, ival{x, y})
			}
		}
		up, down := chord(region, n, h+delta), chord(region, n, h-delta)
		var xs []float64
		for _, l := range [][]ival{up, down, got} {
			for _, i := range l {
				xs = append(xs, i.a, i.b)
			}
		}
		sort.Float64s(xs)
		for i := 0; i+1 < len(xs); i++ {
			if xs[i+1]-xs[i] < tol {
				continue
			}
			m := (xs[i] + xs[i+1]) / 2
			u, d, g := covered(up, m), covered(down, m), covered(got, m)
			at := n.Mul(h).Add(w.Mul(m))
			if g > 1 {
				return errf("plane %d of %d (%.6g %.6g | %.9g): filled %d times at %v", pi, len(planes), n.X, n.Y, h, g, at)
			}
			if g == 0 && u > 0 && d > 0 && xs[i+1]-xs[i] > slack && regionDist(region, at) > 1e-5 {
				return errf("plane %d of %d (%.6g %.6g | %.9g): not filled at %v for %g", pi, len(planes), n.X, n.Y, h, at, xs[i+1]-xs[i])
			}
			if g > 0 && u == 0 && d == 0 && regionDist(region, at) > 1e-5 {
				return errf("plane %d of %d (%.6g %.6g | %.9g): filled outside at %v for %g", pi, len(planes), n.X, n.Y, h, at, xs[i+1]-xs[i])
			}
		}
		r.Count("fill lines", len(got))
		if len(got) > 0 {
			r.NT()
		}
		if len(got) > 1 {
			r.Tag("several lines on a plane")
		}
	}
	for k := range on {
		if !on[k] {
			return errf("fill line %d %v is on no plane", k, fill[k].Points)
		}
	}
	return nil
}

type fillPoly struct {
	Polys  []Poly    `json:"polys"`
	Hole   float64   `json:"hole"` // holes: scaled copies
	Inner  bool      `json:"inner"`
	Angles []float64 `json:"angles"`
	Offs   []float64 `json:"offs"` // per angle and as many times: negative = through vertex
	Z      float64   `json:"z"`
	Seed   uint64    `json:"seed"`
}

func genFillPoly(t *rapid.T) fillPoly {
	c := fillPoly{Z: gen.Grid(t, "z", -5, 60, 0.25), Hole: gen.Pick(t, "hole", 0, 0.3, 0.5, 0.25), Seed: gen.Seed(t, "seed")}
	grid := gen.P(t, "grid", 0.6)
	for i := gen.I(t, "polys", 1, 3); i > 0; i-- {
		q := drawPoly(t, "p", grid)
		q.At = geo.P2{X: float64(100*(len(c.Polys)-1)) + gen.Grid(t, "x", -20, 20, 0.5), Y: gen.Grid(t, "y", -60, 60, 0.5)}
		if q.Scale > 2 {
			q.Scale = 2
		}
		c.Polys = append(c.Polys, q)
	}
	c.Inner = rapid.Bool().Draw(t, "inner")
	for i := gen.I(t, "angles", 1, 3); i > 0; i-- {
		c.Angles = append(c.Angles, gen.Pick(t, "angle", 0.0, 90, 45, 135, 60, 120, 10, 92, 87, 170, 30, 100))
	}
	for i := gen.I(t, "offs", 1, 12); i > 0; i-- {
		switch gen.I(t, "ok", 0, 2) {
		case 0:
			c.Offs = append(c.Offs, gen.F(t, "of", 0, 1))
		default:
			c.Offs = append(c.Offs, -1-float64(gen.I(t, "ov", 0, 60)))
		}
	}
	return c
}

func (c fillPoly) loops() []geo.Loop {
	var res []geo.Loop
	for _, q := range c.Polys {
		l := q.Loop()
		if !simple(l) {
			continue
		}
		clear := true
		for _, k := range res {
			if geo.LoopDist(k, l) < 1e-3 || k.Winding(l[0]) != 0 || l.Winding(k[0]) != 0 {
				clear = false
			}
		}
		if !clear {
			continue
		}
		if l.Area() > 0 {
			l = l.Reverse()
		}
		res = append(res, l)
		if c.Hole > 0 {
			o := l.Centroid()
			var h geo.Loop
			for _, v := range l {
				h = append(h, o.Add(v.Sub(o).Mul(c.Hole)))
			}
			if geo.LoopDist(h, l) > 1e-2 && l.Winding(h[0]) != 0 {
				res = append(res, h.Reverse())
			}
		}
	}
	return res
}

func checkFillPoly(c fillPoly, r *fw.Rec) error {
	loops := c.loops()
	if len(loops) == 0 {
		r.Excluded = "not simple"
		return nil
	}
	var planes []p.Plane
	rng := gen.NewRng(c.Seed)
	used := map[float64]bool{}
	for _, a := range c.Angles {
		if used[a] {
			continue
		}
		used[a] = true
		n := geo.P2{X: math.Cos(a * math.Pi / 180), Y: math.Sin(a * math.Pi / 180)}
		if math.Mod(a, 90) == 0 {
			n = geo.P2{X: math.Round(n.X), Y: math.Round(n.Y)}
		}
		lo, hi := math.Inf(1), math.Inf(-1)
		var all geo.Loop
		for _, l := range loops {
			for _, v := range l {
				lo, hi = math.Min(lo, v.Dot(n)), math.Max(hi, v.Dot(n))
				all = append(all, v)
			}
		}
		var hs []float64
		for _, o := range c.Offs {
			var q geo.P2
			if o < 0 {
				q = all[int(-o)%len(all)]
				r.Tag("planes through corners")
			} else {
				q = n.Mul(lo + (hi-lo)*o)
			}
			h := q.Dot(n)
			clear := true
			for _, g := range hs {
				if math.Abs(g-h) < 1e-3 {
					clear = false
				}
			}
			if !clear {
				continue
			}
			hs = append(hs, h)
			if rng.N(2) == 0 && !(o < 0 && math.Mod(a, 90) != 0) { // another point of the same plane
				q = q.Add(geo.P2{X: n.Y, Y: -n.X}.Mul(float64(rng.N(100) - 50)))
			}
			planes = append(planes, p.Plane{P: p.Point{X: q.X, Y: q.Y, Z: float64(rng.N(3))}, N: p.Vector{X: n.X, Y: n.Y}})
		}
	}
	l := p.Layer{Norm: p.AxisZ}
	for _, k := range loops {
		l.Paths = append(l.Paths, loopPath(xyAt(c.Z), k))
	}
	if c.Inner {
		l.InnerPs = l.Paths
		l.Paths = []p.Path{loopPath(xyAt(c.Z), geo.Loop{{X: -300, Y: -300}, {X: -300, Y: 300}, {X: 300, Y: 300}, {X: 300, Y: -300}})}
	}
	set := baseSettings(0.2)
	layers := slicers.FillLayers([]p.Layer{l}, planes, nil, set)
	if len(layers) != 1 || len(layers[0].Paths) != len(l.Paths) || len(layers[0].InnerPs) != len(l.InnerPs) {
		return errf("filling changes the walls")
	}
	return judgeFill(loops, planes, c.Z, layers[0].Fill, r)
}

// models sliced and filled as the modes do it
type fillModel struct {
	S        sliceCase `json:"s"`
	Walls    float64   `json:"walls"`
	Vip      bool      `json:"vip"`
	Type     string    `json:"type"`
	Density  int       `json:"density"`
	Line     float64   `json:"line"`
	Top, Bot int
}

func genFillModel(t *rapid.T) fillModel {
	c := fillModel{S: genSlice(t)}
	c.S.Dir = geo.V{Z: 1}
	m := c.S.M.Build()
	lo, hi := m.Range(geo.V{Z: 1})
	if c.S.T < (hi-lo)/12 {
		c.S.T = (hi - lo) / float64(gen.I(t, "n", 2, 12))
	}
	c.Vip = gen.P(t, "vip", 0.5)
	c.Line = gen.Pick(t, "line", 0.4, 0.4, 0.8, 1, 0.5)
	c.Walls = c.Line * float64(gen.I(t, "walls", 1, 4))
	c.Type = gen.Pick(t, "type", "Lines", "Squares", "Triangles")
	c.Density = gen.Pick(t, "density", 20, 20, 10, 5, 25, 33, 1, 50)
	c.Top, c.Bot = gen.I(t, "top", 0, 3), gen.I(t, "bot", 0, 3)
	return c
}

func (c fillModel) settings() slicers.Settings {
	set := baseSettings(c.S.T)
	set.WallThickness, set.FillingType, set.FillDensity = c.Walls, c.Type, c.Density
	set.GcodeSettings.LineWidth = c.Line
	set.TopLayers, set.BottomLayers = c.Top, c.Bot
	return set
}

// fillRegion is the region a layer's infill has to fill, nil if it is not well defined.
func fillRegion(l p.Layer) []geo.Loop {
	ps := l.Paths
	if l.InnerPs != nil {
		ps = l.InnerPs
	}
	var res []geo.Loop
	for _, q := range ps {
		if !geo.Closed(q, 1e-6) {
			return nil
		}
		res = append(res, geo.PathLoop(xy, q))
	}
	return res
}

func checkFillModel(c fillModel, r *fw.Rec) error {
	m := c.S.M.Build().Goosli()
	set := c.settings()
	layers := slicers.SliceByVector(m, p.AxisZ, set)
	planes, full := slicers.CalcFillPlanes(m, set)
	if c.Vip {
		layers = vip.PrepareLayers(layers, set, planes, full)
	} else {
		layers = slicers.FillLayers(layers, planes, full, set)
	}
	for i, l := range layers {
		reg := fillRegion(l)
		if reg == nil {
			continue
		}
		use := planes
		if i < c.Bot || i >= len(layers)-c.Top {
			use = full
			r.Tag("solid layers")
		}
		z := l.Paths[0].Points[0].Z
		if err := judgeFill(reg, use, z, l.Fill, r); err != nil {
			return errf("layer %d of %d, %s %d%%, line %g, walls %g: %v", i, len(layers), c.Type, c.Density, c.Line, c.Walls, err)
		}
	}
	return nil
}

// ---- C19 ----

type planesCase struct {
	Lo, Hi  geo.V
	M       gen.MeshSpec `json:"m"`
	Mesh    bool         `json:"mesh"`
	Type    string       `json:"type"`
	Density int          `json:"density"`
	Line    float64      `json:"line"`
}

func genPlanes(t *rapid.T) planesCase {
	c := planesCase{Type: gen.Pick(t, "type", "Lines", "Squares", "Triangles"), Density: gen.I(t, "density", 1, 100)}
	c.Line = gen.Pick(t, "line", 0.4, 0.4, 0.1, 0.8, 1, 0.35)
	if gen.P(t, "line?", 0.3) {
		c.Line = gen.F(t, "linef", 0.1, 2)
	}
	if c.Mesh = gen.P(t, "mesh", 0.3); c.Mesh {
		c.M = gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 3, Rotate: true, Grid: true, Shift: 80})
		return c
	}
	a, b := drawPoint(t, "a", 120), drawPoint(t, "b", 120)
	c.Lo = geo.V{X: math.Min(a.X, b.X), Y: math.Min(a.Y, b.Y), Z: math.Min(a.Z, b.Z)}
	c.Hi = geo.V{X: math.Max(a.X, b.X) + 0.5, Y: math.Max(a.Y, b.Y) + 0.5, Z: math.Max(a.Z, b.Z) + 0.5}
	return c
}

func boxMesh(lo, hi geo.V) geo.Mesh {
	v := func(i int) geo.V {
		q := lo
		if i&1 != 0 {
			q.X = hi.X
		}
		if i&2 != 0 {
			q.Y = hi.Y
		}
		if i&4 != 0 {
			q.Z = hi.Z
		}
		return q
	}
	var m geo.Mesh
	for _, f := range [][4]int{{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}} {
		m = append(m, geo.Tri{v(f[0]), v(f[1]), v(f[2])}, geo.Tri{v(f[0]), v(f[2]), v(f[3])})
	}
	return m
}

// judgePlanes: parallel vertical planes in families with the directions and spacing.
func judgePlanes(m geo.Mesh, planes []p.Plane, angles []float64, step float64) error {
	byFam := make([][]float64, len(angles))
	for k, pl := range planes {
		n := geo.FromV(pl.N)
		if !n.Finite() || math.Abs(n.Len()-1) > 1e-6 || math.Abs(n.Z) > 1e-9 || !geo.FromP(pl.P).Finite() {
			return errf("plane %d is %v | %v", k, pl.P, pl.N)
		}
		fam := -1
		for i, a := range angles {
			u := geo.V{X: math.Cos(a * math.Pi / 180), Y: math.Sin(a * math.Pi / 180)}
			if c := n.Cross(u).Len(); c < 1e-6 {
				fam = i
				byFam[i] = append(byFam[i], geo.FromP(pl.P).Dot(u))
			}
		}
		if fam < 0 {
			return errf("plane %d has normal %v", k, pl.N)
		}
	}
	for i, hs := range byFam {
		a := angles[i]
		u := geo.V{X: math.Cos(a * math.Pi / 180), Y: math.Sin(a * math.Pi / 180)}
		lo, hi := m.Range(u)
		sort.Float64s(hs)
		for k := 1; k < len(hs); k++ {
			if math.Abs(hs[k]-hs[k-1]-step) > 1e-6*math.Max(1, step) {
				return errf("planes across %g degrees are %g apart, expected %g", a, hs[k]-hs[k-1], step)
			}
		}
		if len(hs) == 0 {
			if hi-lo > step {
				return errf("no planes across %g degrees, the model is %g wide, spacing %g", a, hi-lo, step)
			}
			continue
		}
		if hs[0] > lo+step+1e-6 || hs[len(hs)-1] < hi-step-1e-6 {
			return errf("planes across %g degrees reach from %g to %g, the model from %g to %g (spacing %g)", a, hs[0], hs[len(hs)-1], lo, hi, step)
		}
	}
	return nil
}

func checkPlanes(c planesCase, r *fw.Rec) error {
	m := boxMesh(c.Lo, c.Hi)
	if c.Mesh {
		m = c.M.Build()
	}
	set := baseSettings(0.2)
	set.FillingType, set.FillDensity, set.GcodeSettings.LineWidth = c.Type, c.Density, c.Line
	planes, full := slicers.CalcFillPlanes(m.Goosli(), set)
	lo, hi := m.Box()
	if lo.X > 0 || lo.Y > 0 || hi.X < 0 || hi.Y < 0 {
		r.Tag("off the origin")
		r.NT()
	}
	var angles []float64
	switch c.Type {
	case "Lines":
		angles = []float64{0}
	case "Squares":
		angles = []float64{45, 135}
	case "Triangles":
		angles = []float64{0, 60, 120}
	}
	r.Tag("%s", c.Type)
	if c.Density%len(angles) != 0 {
		r.Tag("density not divisible")
		r.NT()
	}
	step := 100 / float64(c.Density) * c.Line * float64(len(angles))
	if err := judgePlanes(m, planes, angles, step); err != nil {
		return errf("%s %d%%: %v", c.Type, c.Density, err)
	}
	if err := judgePlanes(m, full, []float64{0}, c.Line); err != nil {
		return errf("solid: %v", err)
	}
	return nil
}

// which layers are solid, and that the order of planes decides nothing but the order of lines
type solidCase struct {
	Sizes    []float64 `json:"sizes"` // squares
	Top, Bot int
	Step     float64 `json:"step"`
	Solid    float64 `json:"solid"`
	Angle    float64 `json:"angle"`
	Seed     uint64  `json:"seed"`
	InnerAt  int     `json:"innerAt"`
}

func genSolid(t *rapid.T) solidCase {
	c := solidCase{Top: gen.I(t, "top", 0, 6), Bot: gen.I(t, "bot", 0, 6), Step: gen.F(t, "step", 0.7, 4), Solid: gen.F(t, "solid", 0.3, 0.6),
		Angle: gen.Pick(t, "angle", 0.0, 90, 45, 60, 30), Seed: gen.Seed(t, "seed"), InnerAt: gen.I(t, "inner", -1, 6)}
	for i := gen.I(t, "n", 0, 8); i > 0; i-- {
		c.Sizes = append(c.Sizes, gen.F(t, "size", 1, 12))
	}
	return c
}

func segKey(q p.Path) [2]p.Point {
	a, b := q.Points[0], q.Points[len(q.Points)-1]
	if b.X < a.X || (b.X == a.X && b.Y < a.Y) {
		a, b = b, a
	}
	return [2]p.Point{a, b}
}

func checkSolid(c solidCase, r *fw.Rec) error {
	fam := func(angle, step float64) []p.Plane {
		n := geo.P2{X: math.Cos(angle * math.Pi / 180), Y: math.Sin(angle * math.Pi / 180)}
		var res []p.Plane
		for h := -18 + 0.123; h < 18; h += step {
			res = append(res, p.Plane{P: p.Point{X: n.X * h, Y: n.Y * h}, N: p.Vector{X: n.X, Y: n.Y}})
		}
		return res
	}
	planes, full := fam(c.Angle, c.Step), fam(0, c.Solid)
	build := func() []p.Layer {
		var ls []p.Layer
		for i, s := range c.Sizes {
			q := p.Layer{Order: i + 3, Norm: p.AxisZ}
			sq := loopPath(xyAt(float64(i)), geo.Loop{{X: -s, Y: -s}, {X: -s, Y: s}, {X: s, Y: s}, {X: s, Y: -s}})
			q.Paths = []p.Path{sq}
			if i == c.InnerAt {
				q.InnerPs = []p.Path{loopPath(xyAt(float64(i)), geo.Loop{{X: -s / 2, Y: -s / 2}, {X: -s / 2, Y: s / 2}, {X: s / 2, Y: s / 2}, {X: s / 2, Y: -s / 2}})}
			}
			ls = append(ls, q)
		}
		return ls
	}
	set := baseSettings(0.2)
	set.TopLayers, set.BottomLayers = c.Top, c.Bot
	n := len(c.Sizes)
	res := slicers.FillLayers(build(), planes, full, set)
	if len(res) != n {
		return errf("%d layers, given %d", len(res), n)
	}
	if c.Top+c.Bot > 0 && c.Top+c.Bot < n {
		r.NT()
	}
	if c.Top+c.Bot >= n {
		r.Tag("all solid")
	}
	ref := build()
	for i := range res {
		if res[i].Order != ref[i].Order || len(res[i].Paths) != 1 || !samePoints(res[i].Paths[0], ref[i].Paths[0]) {
			return errf("layer %d was changed or moved", i)
		}
		use, kind := planes, "pattern"
		if i < c.Bot || i >= n-c.Top {
			use, kind = full, "solid"
		}
		if err := judgeFill(fillRegion(res[i]), use, float64(i), res[i].Fill, r); err != nil {
			return errf("layer %d of %d (%d bottom, %d top) is not filled %s: %v", i, n, c.Bot, c.Top, kind, err)
		}
	}
	// other order of planes: the same lines
	perm := func(ps []p.Plane) []p.Plane {
		var r []p.Plane
		for _, k := range gen.NewRng(c.Seed).Perm(len(ps)) {
			r = append(r, ps[k])
		}
		return r
	}
	other := slicers.FillLayers(build(), perm(planes), perm(full), set)
	for i := range res {
		count := map[[2]p.Point]int{}
		for _, f := range res[i].Fill {
			count[segKey(f)]++
		}
		for _, f := range other[i].Fill {
			count[segKey(f)]--
		}
		for k, v := range count {
			if v != 0 {
				return errf("layer %d: line %v appears %+d times more with the planes in another order", i, k, -v)
			}
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C18", Subs: []*fw.Sub{
		fw.S("polygons", 20000, genFillPoly, checkFillPoly),
		fw.S("models", 1000, genFillModel, checkFillModel),
	}})
	fw.Register(&fw.Prop{ID: "C19", Subs: []*fw.Sub{
		fw.S("planes", 6000, genPlanes, checkPlanes),
		fw.S("solid", 5000, genSolid, checkSolid),
	}})
}
