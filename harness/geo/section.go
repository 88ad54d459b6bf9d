package geo

import (
	"math"
	"sort"

	p "github.com/l1va/goosli/primitives"
)

// PathLoop converts a closed path (first point repeated at the end) to a loop in the frame.
func PathLoop(f Frame, pth p.Path) Loop {
	l := Loop{}
	n := len(pth.Points)
	for i, q := range pth.Points {
		if i == n-1 && n > 1 && FromP(q).Dist(FromP(pth.Points[0])) < 1e-5 {
			break
		}
		l = append(l, f.To(FromP(q)))
	}
	return l
}

func Closed(pth p.Path, eps float64) bool {
	n := len(pth.Points)
	return n > 1 && FromP(pth.Points[0]).Dist(FromP(pth.Points[n-1])) <= eps
}

// SectionArea is the area of the mesh's cross-section by the plane n.x = h
// (h must not hit a vertex), by the sum of oriented segments.
func (m Mesh) SectionArea(f Frame) float64 {
	s := 0.0
	h := f.O.Dot(f.N)
	for _, t := range m {
		var d [3]float64
		for k := range t {
			d[k] = t[k].Dot(f.N) - h
		}
		var in, out []V // crossing points from front to back and back to front along the winding
		for k := 0; k < 3; k++ {
			a, b := d[k], d[(k+1)%3]
			if (a >= 0) == (b >= 0) {
				continue
			}
			q := t[k].Add(t[(k+1)%3].Sub(t[k]).Mul(a / (a - b)))
			if a >= 0 {
				in = append(in, q)
			} else {
				out = append(out, q)
			}
		}
		if len(in) == 1 && len(out) == 1 {
			// outward facets: from the upward crossing to the downward crossing keeps the solid on the left
			a, b := f.To(in[0]), f.To(out[0])
			s += a.Cross(b)
		}
	}
	return s / 2
}

// ClearHeights returns values of n.x strictly between distinct vertex heights.
func (m Mesh) Heights(n V) []float64 {
	var hs []float64
	for _, t := range m {
		for _, v := range t {
			hs = append(hs, v.Dot(n))
		}
	}
	sort.Float64s(hs)
	out := hs[:0]
	for _, h := range hs {
		if len(out) == 0 || h-out[len(out)-1] > 1e-9 {
			out = append(out, h)
		}
	}
	return out
}

// NearestHeight is the distance from h to the nearest vertex height.
func NearestHeight(hs []float64, h float64) float64 {
	i := sort.SearchFloat64s(hs, h)
	d := math.Inf(1)
	if i < len(hs) {
		d = math.Min(d, hs[i]-h)
	}
	if i > 0 {
		d = math.Min(d, h-hs[i-1])
	}
	return d
}

func RotP(rm p.RotationMatrix) func(V) V {
	return func(v V) V {
		return V{v.Dot(FromV(rm.X)), v.Dot(FromV(rm.Y)), v.Dot(FromV(rm.Z))}
	}
}

// SectionSegments are the segments in which the plane through f.O with normal
// f.N cuts the facets (vertices in the plane count as in front).
func (m Mesh) SectionSegments(f Frame) [][2]V {
	var r [][2]V
	h := f.O.Dot(f.N)
	for _, t := range m {
		var pts []V
		for k := 0; k < 3; k++ {
			a, b := t[k].Dot(f.N)-h, t[(k+1)%3].Dot(f.N)-h
			if (a >= 0) != (b >= 0) {
				pts = append(pts, t[k].Add(t[(k+1)%3].Sub(t[k]).Mul(a/(a-b))))
			}
		}
		if len(pts) == 2 {
			r = append(r, [2]V{pts[0], pts[1]})
		}
	}
	return r
}

// SectionLen is the total length of SectionSegments.
func (m Mesh) SectionLen(f Frame) float64 {
	s := 0.0
	for _, g := range m.SectionSegments(f) {
		s += g[0].Dist(g[1])
	}
	return s
}

// SegSegDist is the distance of two segments in space.
func SegSegDist(a, b, c, d V) float64 {
	u, v, w := b.Sub(a), d.Sub(c), a.Sub(c)
	A, B, C, D, E := u.Dot(u), u.Dot(v), v.Dot(v), u.Dot(w), v.Dot(w)
	best := math.Min(math.Min(SegDist(a, c, d), SegDist(b, c, d)), math.Min(SegDist(c, a, b), SegDist(d, a, b)))
	den := A*C - B*B
	if den > 1e-14*A*C {
		s := (B*E - C*D) / den
		t := (A*E - B*D) / den
		if s >= 0 && s <= 1 && t >= 0 && t <= 1 {
			best = math.Min(best, a.Add(u.Mul(s)).Dist(c.Add(v.Mul(t))))
		}
	}
	return best
}

// segHitsTri tells whether the segment passes through the triangle.
func segHitsTri(a, b V, t Tri) bool {
	n := t.N()
	da, db := a.Sub(t[0]).Dot(n), b.Sub(t[0]).Dot(n)
	if (da > 0) == (db > 0) || da == db {
		return false
	}
	q := a.Add(b.Sub(a).Mul(da / (da - db)))
	for i := 0; i < 3; i++ {
		if t[(i+1)%3].Sub(t[i]).Cross(q.Sub(t[i])).Dot(n) < 0 {
			return false
		}
	}
	return true
}

// TriTriDist is the distance of two triangles (0 when they cut).
func TriTriDist(s, t Tri) float64 {
	d := math.Inf(1)
	for i := 0; i < 3; i++ {
		if segHitsTri(s[i], s[(i+1)%3], t) || segHitsTri(t[i], t[(i+1)%3], s) {
			return 0
		}
		d = math.Min(d, math.Min(TriDist(s[i], t), TriDist(t[i], s)))
		for j := 0; j < 3; j++ {
			d = math.Min(d, SegSegDist(s[i], s[(i+1)%3], t[j], t[(j+1)%3]))
		}
	}
	return d
}
