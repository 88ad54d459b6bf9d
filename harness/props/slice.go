package props

import (
	"math"

	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"

	"github.com/l1va/goosli/gcode"
)

// baseSettings are plain settings with the given layer height.
func baseSettings(t float64) slicers.Settings {
	return slicers.Settings{
		GcodeSettings: &gcode.GcodeSettings{
			BarDiameter: 1.75, Flow: 1, LayerHeight: t, LineWidth: 0.4,
			PrintSpeed: 50 * 60, PrintSpeedLayer1: 20 * 60, PrintSpeedWall: 40 * 60,
			RetractionSpeed: 35 * 60, RetractionDistance: 0.5,
		},
		Epsilon: 10, LayerHeight: t, WallThickness: 0.8, FillDensity: 20, FillingType: "Lines",
		ColorizedAngle: 30, UnitVector: p.AxisZ,
	}
}

type sliceCase struct {
	M   gen.MeshSpec `json:"m"`
	Dir geo.V        `json:"dir"`
	T   float64      `json:"t"`
	Cut float64      `json:"cut"` // where, between lowest and highest vertex, a single plane is put
	At  int          `json:"at"`  // or at which vertex (negative: nowhere)
}

// genSlice draws a closed model, a direction and a layer height giving at most
// about 40 layers. Layer heights that put layers exactly at vertices are common.
func genSlice(t *rapid.T) sliceCase {
	var c sliceCase
	c.M = gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 3, Rotate: true, Upright: true, Grid: true, Cavity: true, Shift: 50})
	if gen.P(t, "up", 0.5) {
		c.Dir = geo.V{Z: gen.Pick(t, "dlen", 1, 0.5, 3, 1e-3, 40)}
	} else {
		c.Dir = gen.DrawDir(t, "dir")
		if gen.P(t, "dl?", 0.5) {
			c.Dir = c.Dir.Mul(gen.Log(t, "dl", 1e-3, 1e3))
		}
	}
	m := c.M.Build()
	lo, hi := m.Range(c.Dir.Unit())
	H := hi - lo
	switch gen.I(t, "tk", 0, 3) {
	case 0:
		c.T = gen.Pick(t, "tg", 1.0, 0.5, 2, 0.25, 4, 3)
	case 1:
		c.T = H / float64(gen.I(t, "tn", 1, 24)) // exact division up to rounding
	case 2:
		c.T = H * gen.F(t, "tf", 0.03, 1.4)
	case 3:
		c.T = gen.Log(t, "tl", 0.1, 30)
	}
	if c.T < H/40 {
		c.T = H / 40
	}
	if c.T == 0 {
		c.T = 0.2
	}
	c.Cut = gen.F(t, "cut", 0, 1)
	c.At = gen.I(t, "at", -2, 12)
	return c
}

// layerCount is the set of acceptable ceil(H/t) under rounding.
func layerCount(H, t float64) (int, int) {
	return int(math.Ceil(H/t - 1e-9)), int(math.Ceil(H/t + 1e-9))
}

func checkLayers(c sliceCase, r *fw.Rec) error {
	m := c.M.Build()
	u := c.Dir.Unit()
	lo, hi := m.Range(u)
	H := hi - lo
	S := 1 + math.Max(math.Abs(lo), math.Abs(hi))
	layers := slicers.SliceByVector(m.Goosli(), c.Dir.Vec(), baseSettings(c.T))
	n1, n2 := layerCount(H, c.T)
	r.Tag("layers %s", bktN(n1))
	var fail error
	for n := n1; n <= n2; n++ {
		fail = judgeStack(m, u, lo, H, S, n, layers)
		if fail == nil {
			if len(layers) > 1 {
				r.NT()
			}
			if len(layers) < n {
				r.Tag("empty end dropped")
			}
			return nil
		}
	}
	return errf("height %.12g along %v, layer height %.12g: %v", H, c.Dir, c.T, fail)
}

func judgeStack(m geo.Mesh, u geo.V, lo, H, S float64, n int, layers []p.Layer) error {
	if len(layers) > n || len(layers) < n-2 {
		return errf("%d layers, want %d", len(layers), n)
	}
	hs := m.Heights(u)
	step := H / float64(n)
	at := func(i int) float64 { return lo + (float64(i)+0.5)*step }
	seen := map[int]bool{}
	for k, l := range layers {
		if k > 0 && l.Order != layers[k-1].Order+1 {
			return errf("layer %d has number %d after %d", k, l.Order, layers[k-1].Order)
		}
		if l.Order < 0 || l.Order >= n {
			return errf("layer number %d of %d", l.Order, n)
		}
		seen[l.Order] = true
		if geo.FromV(l.Norm).Dist(u) > 1e-9 {
			return errf("layer normal %v, want %v", geo.FromV(l.Norm), u)
		}
		for _, pth := range l.Paths {
			for _, q := range pth.Points {
				if d := geo.FromP(q).Dot(u) - at(l.Order); math.Abs(d) > 2e-8+1e-11*S {
					return errf("layer %d of %d has a point %g off its height %g above the lowest point", l.Order, n, d, at(l.Order)-lo)
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if !seen[i] && i != 0 && i != n-1 {
			return errf("layer %d of %d is missing", i, n)
		}
		if !seen[i] || len(layers[i-layers[0].Order].Paths) == 0 {
			// must have been empty
			if geo.NearestHeight(hs, at(i)) < 1e-6 {
				continue
			}
			if l := m.SectionLen(geo.NewFrame(u.Mul(at(i)), u)); l > 1e-3 {
				return errf("layer %d of %d is missing or empty but the model has a section of border length %g there", i, n, l)
			}
		}
	}
	return nil
}

// meshes without height
type flatCase struct {
	N    int
	Kind int
	Dir  geo.V
	T    float64
	Tris []geo.Tri
}

func genFlat(t *rapid.T) flatCase {
	c := flatCase{Kind: gen.I(t, "kind", 0, 2), Dir: gen.DrawDir(t, "dir"), T: gen.Log(t, "t", 0.05, 3)}
	if c.Kind == 1 {
		f := geo.NewFrame(drawPoint(t, "o", 50), c.Dir)
		if gen.P(t, "axis", 0.5) {
			c.Dir = geo.V{Z: 1}
			f = geo.Frame{O: geo.V{X: gen.Grid(t, "ox", -5, 5, 1), Z: gen.Grid(t, "oz", -5, 5, 0.1)}, E1: geo.V{X: 1}, E2: geo.V{Y: 1}, N: geo.V{Z: 1}}
		}
		for i := gen.I(t, "n", 1, 4); i > 0; i-- {
			var tr geo.Tri
			for k := range tr {
				tr[k] = f.From(geo.P2{X: gen.Grid(t, "x", -10, 10, 0.5), Y: gen.Grid(t, "y", -10, 10, 0.5)})
			}
			c.Tris = append(c.Tris, tr)
		}
	}
	return c
}

func checkFlat(c flatCase, r *fw.Rec) error {
	r.NT()
	r.Tag("kind %d", c.Kind)
	var m *p.Mesh
	if c.Kind > 0 {
		m = geo.Mesh(c.Tris).Goosli()
	}
	layers := slicers.SliceByVector(m, c.Dir.Vec(), baseSettings(c.T))
	for _, l := range layers {
		if len(l.Paths) > 0 {
			if c.Dir != (geo.V{Z: 1}) {
				continue // flat only up to rounding: a layer of slivers is no error
			}
			return errf("a mesh without height gives %d layers", len(layers))
		}
	}
	if len(layers) > 1 {
		return errf("a mesh without height gives %d layers", len(layers))
	}
	return nil
}

// ---- C13 contours ----

// judgeContours compares the closed contours in the plane of f with the mesh.
// degen: forbid contours without area (exact models only).
func judgeContours(m geo.Mesh, f geo.Frame, paths []p.Path, seed uint64, degen bool, r *fw.Rec) error {
	lo, hi := m.Box()
	size := hi.Sub(lo).MaxAbs()
	S := size + lo.MaxAbs() + hi.MaxAbs()
	near := 1e-5 + 1e-7*S // points this near the surface are not judged
	segs := m.SectionSegments(f)
	short := math.Inf(1)
	for _, s := range segs {
		short = math.Min(short, s[0].Dist(s[1]))
	}
	near = math.Max(near, 4e-6/math.Max(short, 1e-3)) // corners between such short sides may be taken for straight
	var loops []geo.Loop
	total := 0.0
	for i, pth := range paths {
		if len(pth.Points) < 3 {
			return errf("contour %d has %d points", i, len(pth.Points))
		}
		if !geo.Closed(pth, 3e-6) {
			return errf("contour %d is open: starts at %v, ends at %v", i, geo.FromP(pth.Points[0]), geo.FromP(pth.Points[len(pth.Points)-1]))
		}
		l := geo.PathLoop(f, pth)
		total += l.Len()
		if degen && math.Abs(l.Area()) < 1e-7 && l.Len() > 1e-3 {
			return errf("contour %d of length %g encloses nothing", i, l.Len())
		}
		loops = append(loops, l)
	}
	// points to judge: anywhere, and beside the contours and the reference section
	rng := gen.NewRng(seed)
	var probes []geo.V
	add := func(v geo.V) {
		q := f.To(v)
		probes = append(probes, f.From(q))
	}
	for k := 0; k < 8; k++ {
		add(geo.V{X: lo.X + (hi.X-lo.X)*rng.F(), Y: lo.Y + (hi.Y-lo.Y)*rng.F(), Z: lo.Z + (hi.Z-lo.Z)*rng.F()})
	}
	offs := []float64{1e-4 * size, 1e-2 * size}
	beside := func(a, b geo.V) {
		d := b.Sub(a)
		if d.Len() < 1e-5 {
			return
		}
		side := d.Cross(f.N).Unit()
		mid := a.Add(d.Mul(0.1 + 0.8*rng.F()))
		o := offs[rng.N(2)]
		add(mid.Add(side.Mul(o)))
		add(mid.Sub(side.Mul(o)))
	}
	for k := 0; k < 8 && len(loops) > 0; k++ {
		l := loops[rng.N(len(loops))]
		i := rng.N(len(l))
		beside(f.From(l[i]), f.From(l[(i+1)%len(l)]))
	}
	for k := 0; k < 8 && len(segs) > 0; k++ {
		s := segs[rng.N(len(segs))]
		beside(s[0], s[1])
	}
	judged, inside := 0, 0
	for _, q := range probes {
		if m.Dist(q) < near {
			continue
		}
		w := m.Winding(q)
		want := int(math.Round(w))
		fw.Assert(math.Abs(w-float64(want)) < 1e-6, "winding number %v of a closed mesh", w)
		got := 0
		for _, l := range loops {
			got += l.Winding(f.To(q))
		}
		judged++
		if want != 0 {
			inside++
		}
		if got != -want {
			return errf("point %v is %d times inside the model, but its contours wind %d times around it (clockwise seen against the normal counts -1)", q, want, got)
		}
	}
	r.Count("points judged", judged)
	r.Count("points inside", inside)
	if inside > 0 {
		r.NT()
	}
	// every border once: total length
	if geo.NearestHeight(m.Heights(f.N), f.O.Dot(f.N)) > 1e-6 {
		want := m.SectionLen(f)
		tol := 1e-5*float64(1+len(segs)) + 1e-6*want
		for _, s := range segs { // corners with such short sides may be taken for straight
			if s[0].Dist(s[1]) < 1e-2 {
				tol += 1e-3
			}
		}
		if d := math.Abs(total - want); d > tol {
			return errf("contours are %g long in all, the section's border is %g", total, want)
		}
		area := 0.0
		for _, l := range loops {
			area -= l.Area()
		}
		if a := m.SectionArea(f); math.Abs(area-a) > 1e-5*(1+want) {
			return errf("contours enclose %g, the section has area %g", area, a)
		}
	}
	return nil
}

// isGrid: all coordinates exact and all facets axis-parallel, so that no section
// shrinks to a line (a ridge touching the plane)
func isGrid(s gen.MeshSpec) bool {
	m := s.Build()
	for _, t := range m {
		if n := t.N().Unit(); n.MaxAbs() != 1 {
			return false
		}
		for _, v := range t {
			for _, x := range []float64{v.X, v.Y, v.Z} {
				if x*1024 != math.Trunc(x*1024) {
					return false
				}
			}
		}
	}
	return true
}

func checkContours(c sliceCase, r *fw.Rec) error {
	m := c.M.Build()
	u := c.Dir.Unit()
	lo, hi := m.Range(u)
	H := hi - lo
	layers := slicers.SliceByVector(m.Goosli(), c.Dir.Vec(), baseSettings(c.T))
	grid := isGrid(c.M) && math.Abs(u.X)+math.Abs(u.Y)+math.Abs(u.Z) == 1
	r.Tag("%s", c.M.KindTag())
	hs := m.Heights(u)
	n1, n2 := layerCount(H, c.T)
	var fail error
	for n := n1; n <= n2; n++ {
		fail = nil
		for k, l := range layers {
			// all layers of short stacks, some of tall ones
			if len(layers) > 6 && k > 0 && k < len(layers)-1 && (k*7+int(c.Cut*100))%(len(layers)/4+1) != 0 {
				continue
			}
			h := lo + (float64(l.Order)+0.5)*H/float64(n)
			if geo.NearestHeight(hs, h) < 1e-12 {
				r.Tag("layer exactly through vertices")
				if !grid && geo.NearestHeight(hs, h) != 0 {
					// within rounding of vertices: winding still has to be right
					r.Tag("layer within rounding of vertices")
				}
			}
			f := geo.NewFrame(u.Mul(h), u)
			if err := judgeContours(m, f, l.Paths, uint64(k)*31+uint64(c.Cut*1e6), grid, r); err != nil {
				fail = errf("layer %d of %d (height %.12g) along %v: %v", l.Order, n, h-lo, c.Dir, err)
				break
			}
		}
		if fail == nil {
			return nil
		}
	}
	return fail
}

// a single plane cut by IntersectMesh
func checkSingle(c sliceCase, r *fw.Rec) error {
	m := c.M.Build()
	u := c.Dir.Unit()
	lo, hi := m.Range(u)
	h := lo + (hi-lo)*c.Cut
	P := u.Mul(h)
	if c.At >= 0 {
		P = m[(c.At*97)%len(m)][c.At%3]
		h = P.Dot(u)
		r.Tag("through a vertex")
	}
	// the section is moved along the plane
	grid := isGrid(c.M) && math.Abs(u.X)+math.Abs(u.Y)+math.Abs(u.Z) == 1
	l := p.Plane{P: P.P(), N: c.Dir.Vec()}.IntersectMesh(m.Goosli())
	if geo.FromV(l.Norm).Unit().Dist(u) > 1e-9 {
		return errf("layer normal %v, want along %v", geo.FromV(l.Norm), u)
	}
	f := geo.NewFrame(P, u)
	for _, pth := range l.Paths {
		for _, q := range pth.Points {
			if d := geo.FromP(q).Sub(P).Dot(u); math.Abs(d) > 2e-8+1e-11*(1+absMax([]geo.V{P})) {
				return errf("contour point %g off the plane", d)
			}
		}
	}
	if err := judgeContours(m, f, l.Paths, uint64(c.Cut*1e6), grid, r); err != nil {
		return errf("plane at %v normal %v: %v", P, c.Dir, err)
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C12", Subs: []*fw.Sub{
		fw.S("stack", 6000, genSlice, checkLayers),
		fw.S("flat", 2000, genFlat, checkFlat),
	}})
	fw.Register(&fw.Prop{ID: "C13", Subs: []*fw.Sub{
		fw.S("layers", 4000, genSlice, checkContours),
		fw.S("single", 3000, genSlice, checkSingle),
	}})
}
