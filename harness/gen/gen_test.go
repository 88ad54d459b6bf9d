package gen

import (
	"math"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/geo"
)

// Every generated model is closed, outward oriented and embedded (winding numbers 0 or 1).
func TestMeshes(t *testing.T) {
	kinds := map[string]int{}
	rapid.Check(t, func(t *rapid.T) {
		s := DrawMesh(t, "m", MeshOpt{Bodies: 3, Rotate: true, Grid: true, Cavity: true, OnBed: P(t, "bed", 0.5), Shift: 50})
		m := s.Build()
		kinds[s.KindTag()]++
		if w := m.Watertight(1e-7); w != "" {
			t.Fatalf("not watertight: %s", w)
		}
		if m.Volume() <= 0 {
			t.Fatalf("volume %g", m.Volume())
		}
		if a := m.AreaVector().Len(); a > 1e-6*m.Area() {
			t.Fatalf("area vector %g", a)
		}
		lo, hi := m.Box()
		r := NewRng(Seed(t, "q"))
		n := 0
		for i := 0; i < 40; i++ {
			q := geo.V{X: lo.X + (hi.X-lo.X)*r.F(), Y: lo.Y + (hi.Y-lo.Y)*r.F(), Z: lo.Z + (hi.Z-lo.Z)*r.F()}
			if m.Dist(q) < 1e-3 {
				continue
			}
			w := m.Winding(q)
			k := math.Round(w)
			if math.Abs(w-k) > 1e-3 || k < 0 || k > 1 {
				t.Fatalf("winding %g at %v", w, q)
			}
			if k == 1 {
				n++
			}
		}
	})
	t.Log(kinds)
}
