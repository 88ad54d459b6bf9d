package props

import (
	"fmt"
	"math"

	p "github.com/l1va/goosli/primitives"
	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/geo"
)

// near tells whether a and b agree within tol.
func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func errf(f string, a ...any) error { return fmt.Errorf(f, a...) }

// drawVec draws a non-zero vector with length about mag (or over magnitudes).
func drawVec(t *rapid.T, l string, lo, hi float64) geo.V {
	return gen.DrawDir(t, l).Unit().Mul(gen.Log(t, l+".len", lo, hi))
}

// drawPoint draws a point within +-m, nice values over-represented.
func drawPoint(t *rapid.T, l string, m float64) geo.V {
	if rapid.Bool().Draw(t, l+"?") {
		return geo.V{X: gen.F(t, l+"x", -m, m), Y: gen.F(t, l+"y", -m, m), Z: gen.F(t, l+"z", -m, m)}
	}
	return geo.V{X: gen.Grid(t, l+"x", -m, m, m/20), Y: gen.Grid(t, l+"y", -m, m, m/20), Z: gen.Grid(t, l+"z", -m, m, m/20)}
}

func drawAngle(t *rapid.T, l string) float64 {
	switch gen.I(t, l+"k", 0, 3) {
	case 0:
		return gen.Grid(t, l, -360, 360, 15)
	case 1:
		return gen.F(t, l, -1000, 1000)
	}
	return gen.F(t, l, -180, 180)
}

func meshCopy(m *p.Mesh) []p.Triangle { return append([]p.Triangle{}, m.Triangles...) }

func sameTriangles(a, b []p.Triangle) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func pathOf(vs []geo.V) p.Path {
	var r p.Path
	for _, v := range vs {
		r.Points = append(r.Points, v.P())
	}
	return r
}

func vsOf(pth p.Path) []geo.V {
	r := make([]geo.V, len(pth.Points))
	for i, q := range pth.Points {
		r[i] = geo.FromP(q)
	}
	return r
}
