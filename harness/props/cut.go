package props

import (
	"math"

	"github.com/l1va/goosli/helpers"
	p "github.com/l1va/goosli/primitives"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// cutStep is one cut; the part in front (or behind) is kept and cut again.
type cutStep struct {
	N     geo.V      `json:"n"`
	F     float64    `json:"f"`     // where between lowest and highest vertex
	At    int        `json:"at"`    // or at which vertex (negative: nowhere)
	Slide [2]float64 `json:"slide"` // the point of the plane is moved within it
	Back  bool       `json:"back"`
	Again int        `json:"again"` // positive: the plane of this many cuts before
	Off   float64    `json:"off"`   // but so far along its normal, as rounding would move it
}

type cutCase struct {
	M     gen.MeshSpec `json:"m"`
	Steps []cutStep    `json:"steps"`
	Seed  uint64       `json:"seed"`
}

func genCut(t *rapid.T) cutCase {
	var c cutCase
	c.M = gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 3, Rotate: true, Upright: true, Grid: true, Cavity: true, Shift: 50})
	n := gen.Pick(t, "n", 1, 1, 2, 3, 3, 4, 5)
	for i := 0; i < n; i++ {
		var s cutStep
		s.N = gen.DrawDir(t, "dir")
		if gen.P(t, "dl?", 0.5) {
			s.N = s.N.Mul(gen.Log(t, "dl", 1e-2, 1e2))
		}
		s.F = gen.F(t, "f", 0.02, 0.98)
		s.At = gen.I(t, "at", -3, 12)
		if gen.P(t, "miss", 0.1) {
			s.F, s.At = gen.Pick(t, "mf", -0.5, 1.5, -0.01, 1.01), -1
		}
		if gen.P(t, "slide?", 0.5) {
			s.Slide = [2]float64{gen.F(t, "sx", -60, 60), gen.F(t, "sy", -60, 60)}
		}
		s.Back = gen.P(t, "back", 0.4)
		if i > 0 && gen.P(t, "again?", 0.5) {
			s.Again = gen.I(t, "again", 1, i)
			s.Off = gen.Pick(t, "off", 0, 1e-9, -1e-9, 5e-9, -5e-9, 4e-8, -4e-8)
		}
		c.Steps = append(c.Steps, s)
	}
	c.Seed = gen.Seed(t, "seed")
	return c
}

func checkCut(c cutCase, r *fw.Rec) error {
	m := c.M.Build()
	r.Tag("%s", c.M.KindTag())
	mesh := m.Goosli()
	var planes []p.Plane
	for i, s := range c.Steps {
		m = geo.From(mesh)
		if len(m) == 0 || m.Volume() < 1e-6*m.Area() { // nothing left, or a face that lay in the plane
			break
		}
		u := s.N.Unit()
		lo, hi := m.Range(u)
		P := u.Mul(lo + (hi-lo)*s.F)
		if s.At >= 0 {
			P = m[(s.At*97)%len(m)][s.At%3]
		}
		f := geo.NewFrame(P, u)
		if s.Slide != [2]float64{} {
			P = f.From(geo.P2{X: s.Slide[0], Y: s.Slide[1]})
		}
		before := meshCopy(mesh)
		plane := p.Plane{P: P.P(), N: s.N.Vec()}
		if s.Again > 0 && s.Again <= i {
			plane = planes[i-s.Again]
			u = geo.FromV(plane.N).Unit()
			P = geo.FromP(plane.P).Add(u.Mul(s.Off))
			plane.P = P.P()
			r.Tag("plane of an earlier cut")
		}
		planes = append(planes, plane)
		up, down, err := helpers.CutMesh(mesh, plane)
		if err != nil {
			return errf("cut %d: %v", i, err)
		}
		if !sameTriangles(before, mesh.Triangles) {
			return errf("cut %d changed the input mesh", i)
		}
		if err := judgeCut(m, P, u, geo.From(up), geo.From(down), c.Seed+uint64(i), i > 0 || folded(c.M), r); err != nil {
			return errf("cut %d (of %d), plane at %v normal %v: %v", i, len(c.Steps), P, geo.FromV(plane.N), err)
		}
		if s.Back {
			mesh = down
		} else {
			mesh = up
		}
	}
	return nil
}

// closedMesh: every edge has its reverse, points that rounding moved apart
// (thin slivers of earlier cuts) identified at one of several tolerances.
func closedMesh(m geo.Mesh) string {
	s := ""
	for _, eps := range []float64{3e-6, 1e-6, 1e-5, 3e-5} {
		if s = m.Watertight(eps); s == "" {
			return ""
		}
	}
	return s
}

// folded: facets of the model lie on each other (a flange without thickness)
func folded(s gen.MeshSpec) bool {
	for _, b := range s.Bodies {
		if b.Kind != "loft" {
			continue
		}
		for i := 1; i < len(b.Levels); i++ {
			if b.Levels[i].Z-b.Levels[i-1].Z < 1e-3 {
				return true
			}
		}
	}
	return false
}

// noArea: facets of the model may lie on each other (it is folded, or a part
// with the cap of an earlier cut), which makes the area of a section a matter of rounding
func judgeCut(m geo.Mesh, P, u geo.V, up, down geo.Mesh, seed uint64, noArea bool, r *fw.Rec) error {
	scale := 0.0
	for _, t := range m {
		for _, v := range t {
			scale = math.Max(scale, v.Sub(P).Len())
		}
	}
	tol := 2e-6 + 1e-9*scale
	h := P.Dot(u)
	lo, hi := m.Range(u)
	// a plane that misses
	if h < lo-tol || h > hi+tol {
		r.Tag("plane misses")
		whole, none := up, down
		if h > hi {
			whole, none = down, up
		}
		if len(none) != 0 {
			return errf("the plane misses the model, but the other part has %d triangles", len(none))
		}
		if len(whole) != len(m) {
			return errf("the plane misses the model, but %d triangles of %d are left", len(whole), len(m))
		}
		for i := range m {
			if m[i] != whole[i] {
				return errf("the plane misses the model, but triangle %d changed", i)
			}
		}
		return nil
	}
	for k, part := range []geo.Mesh{up, down} {
		name := []string{"front", "back"}[k]
		for _, t := range part {
			for _, v := range t {
				d := v.Sub(P).Dot(u)
				if !v.Finite() || (k == 0 && d < -tol) || (k == 1 && d > tol) {
					return errf("%s part has vertex %v at %g from the plane", name, v, d)
				}
			}
		}
		if s := closedMesh(part); s != "" {
			return errf("%s part is not closed: %s", name, s)
		}
	}
	size := m.Area()
	v, vu, vd := m.Volume(), up.Volume(), down.Volume()
	if math.Abs(v-vu-vd) > 1e-5*(size+1) {
		return errf("volumes %g + %g, the whole has %g", vu, vd, v)
	}
	if vu > 1e-5*size && vd > 1e-5*size {
		r.NT()
	}
	hs := m.Heights(u)
	f := geo.NewFrame(P, u)
	nh := geo.NearestHeight(hs, h)
	if nh < 1e-9 {
		r.Tag("plane through vertices")
	} else if nh > 1e-4 && !noArea {
		// the parts' surfaces are the model's surface and twice the section
		a := m.SectionArea(f)
		if got := up.Area() + down.Area() - size; math.Abs(got-2*a) > 1e-4*(size+1) {
			return errf("the parts have %g more surface than the model, twice the section is %g", got, 2*a)
		}
	}
	rng := gen.NewRng(seed)
	blo, bhi := m.Box()
	n := 24
	if len(m) > 1500 {
		n = 10
	}
	for i := 0; i < n; i++ {
		q := geo.V{X: blo.X + (bhi.X-blo.X)*rng.F(), Y: blo.Y + (bhi.Y-blo.Y)*rng.F(), Z: blo.Z + (bhi.Z-blo.Z)*rng.F()}
		switch i % 3 {
		case 1: // beside the plane
			e := 1e-3 + 0.05*rng.F()
			if rng.N(2) == 0 {
				e = -e
			}
			q = q.Add(u.Mul(h - q.Dot(u) + e))
		case 2: // beside the surface
			t := m[rng.N(len(m))]
			a, b := rng.F(), rng.F()
			if a+b > 1 {
				a, b = 1-a, 1-b
			}
			e := 1e-3 + 0.05*rng.F()
			if rng.N(2) == 0 {
				e = -e
			}
			q = t[0].Add(t[1].Sub(t[0]).Mul(a)).Add(t[2].Sub(t[0]).Mul(b)).Add(t.N().Unit().Mul(e))
		}
		d := q.Sub(P).Dot(u)
		if math.Abs(d) < 1e-4 || m.Dist(q) < 1e-4 {
			continue
		}
		w := math.Round(m.Winding(q))
		wu, wd := up.Winding(q), down.Winding(q)
		eu, ed := w, 0.0
		if d < 0 {
			eu, ed = 0, w
		}
		if w > 0 {
			r.Count("points inside", 1)
		} else {
			r.Count("points outside", 1)
		}
		if math.Abs(wu-eu) > 0.01 || math.Abs(wd-ed) > 0.01 {
			return errf("point %v (%g from the plane): the model has winding %g, the front part %g, the back part %g", q, d, w, wu, wd)
		}
	}
	return nil
}

// nothing to cut
func genCutNone(t *rapid.T) cutStep {
	return cutStep{N: gen.DrawDir(t, "dir"), Back: gen.P(t, "nil", 0.5), F: gen.F(t, "f", -50, 50)}
}

func checkCutNone(c cutStep, r *fw.Rec) error {
	m := &p.Mesh{}
	if c.Back {
		m = nil
	}
	r.NT()
	up, down, err := helpers.CutMesh(m, p.Plane{P: c.N.Mul(c.F).P(), N: c.N.Vec()})
	if err != nil || up == nil || down == nil || len(up.Triangles) != 0 || len(down.Triangles) != 0 {
		return errf("an empty mesh gives %v, %v, %v", up, down, err)
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C20", Subs: []*fw.Sub{
		fw.S("cut", 8000, genCut, checkCut),
		fw.S("empty", 50, genCutNone, checkCutNone),
	}})
}
