package gen

import (
	"math"
	"sort"

	"pgregory.net/rapid"
	"verif/harness/geo"
)

// Star draws a star-shaped polygon about the origin, counter-clockwise, n corners,
// radii in [rmin,rmax].
func StarPoly(t *rapid.T, label string, nmin, nmax int, rmin, rmax float64) geo.Loop {
	n := I(t, label+".n", nmin, nmax) // 3 corners stay regular
	l := make(geo.Loop, n)
	regular := P(t, label+".reg", 0.3) || n == 3
	off := 0.0
	if P(t, label+".off?", 0.6) {
		off = F(t, label+".off", 0, 2*math.Pi)
	}
	r0 := F(t, label+".r", rmin, rmax)
	for i := range l {
		a := 2 * math.Pi * float64(i) / float64(n)
		r := r0
		if !regular {
			a += 2 * math.Pi / float64(n) * F(t, label+".a", -0.35, 0.35)
			r = F(t, label+".ri", rmin, rmax)
		}
		l[i] = geo.P2{X: r * math.Cos(a+off), Y: r * math.Sin(a+off)}
	}
	return l
}

// Shape is a named simple polygon family with non-star members.
type Shape struct {
	Kind string    `json:"kind"`
	P    []float64 `json:"p"`
}

// DrawShape draws an axis-aligned or irregular simple polygon (size about 1..40).
func DrawShape(t *rapid.T, label string, grid bool) Shape {
	v := func(n string, lo, hi float64) float64 {
		if grid {
			return Grid(t, label+n, lo, hi, 0.5)
		}
		return F(t, label+n, lo, hi)
	}
	switch Pick(t, label+".kind", "rect", "L", "U", "T", "plus", "comb", "spiral", "zig", "star", "ngon") {
	case "rect":
		return Shape{"rect", []float64{v("w", 4, 30), v("h", 4, 30)}}
	case "L":
		w, h := v("w", 8, 30), v("h", 8, 30)
		return Shape{"L", []float64{w, h, math.Max(1, w*0.25), math.Max(1, h*0.25)}}
	case "U":
		return Shape{"U", []float64{v("w", 9, 30), v("h", 6, 30), v("t", 2, 3)}}
	case "T":
		return Shape{"T", []float64{v("w", 9, 30), v("h", 6, 30), v("t", 2, 4)}}
	case "plus":
		return Shape{"plus", []float64{v("w", 9, 30), v("t", 2, 6)}}
	case "comb":
		return Shape{"comb", []float64{float64(I(t, label+".teeth", 2, 6)), v("t", 2, 4), v("h", 5, 20)}}
	case "spiral":
		return Shape{"spiral", []float64{v("t", 2, 4), float64(I(t, label+".turns", 1, 2))}}
	case "zig":
		return Shape{"zig", []float64{float64(I(t, label+".n", 2, 6)), v("t", 2, 5), v("h", 2, 6)}}
	case "ngon":
		return Shape{"ngon", []float64{float64(I(t, label+".n", 3, 40)), v("r", 3, 20)}}
	}
	n := I(t, label+".n", 4, 12)
	p := []float64{}
	for i := 0; i < n; i++ {
		p = append(p, v(".r", 4, 20), F(t, label+".da", -0.35, 0.35))
	}
	return Shape{"star", p}
}

// Loop is the shape's outline, counter-clockwise.
func (s Shape) Loop() geo.Loop {
	q := func(c ...float64) geo.Loop {
		l := geo.Loop{}
		for i := 0; i+1 < len(c); i += 2 {
			l = append(l, geo.P2{X: c[i], Y: c[i+1]})
		}
		return l
	}
	p := s.P
	switch s.Kind {
	case "rect":
		return q(0, 0, p[0], 0, p[0], p[1], 0, p[1])
	case "L":
		w, h, a, b := p[0], p[1], p[2], p[3]
		return q(0, 0, w, 0, w, b, a, b, a, h, 0, h)
	case "U":
		w, h, t := p[0], p[1], p[2]
		return q(0, 0, w, 0, w, h, w-t, h, w-t, t, t, t, t, h, 0, h)
	case "T":
		w, h, t := p[0], p[1], p[2]
		m := w / 2
		return q(m-t/2, 0, m+t/2, 0, m+t/2, h-t, w, h-t, w, h, 0, h, 0, h-t, m-t/2, h-t)
	case "plus":
		w, t := p[0], p[1]
		a, b := w/2-t/2, w/2+t/2
		return q(a, 0, b, 0, b, a, w, a, w, b, b, b, b, w, a, w, a, b, 0, b, 0, a, a, a)
	case "comb":
		n, t, h := int(p[0]), p[1], p[2]
		l := q(0, 0, float64(2*n-1)*t, 0)
		for i := n - 1; i >= 0; i-- {
			x0, x1 := float64(2*i)*t, float64(2*i+1)*t
			l = append(l, geo.P2{X: x1, Y: h}, geo.P2{X: x0, Y: h})
			if i > 0 {
				l = append(l, geo.P2{X: x0, Y: t}, geo.P2{X: x0 - t, Y: t})
			}
		}
		return l
	case "spiral":
		// a square spiral corridor of width t
		t, n := p[0], int(p[1])
		var in, out geo.Loop
		x, y := 0.0, 0.0
		dx, dy := 1.0, 0.0
		k := 4*n + 2
		cx, cy := []float64{x}, []float64{y}
		for i := 0; i < k; i++ {
			l := 2 * t * float64(i/2+1)
			x, y = x+dx*l, y+dy*l
			cx, cy = append(cx, x), append(cy, y)
			dx, dy = -dy, dx
		}
		for i := range cx {
			var d1, d2 geo.P2
			c := geo.P2{X: cx[i], Y: cy[i]}
			if i > 0 {
				d1 = c.Sub(geo.P2{X: cx[i-1], Y: cy[i-1]})
				d1 = d1.Mul(1 / d1.Len())
			}
			if i+1 < len(cx) {
				d2 = geo.P2{X: cx[i+1], Y: cy[i+1]}.Sub(c)
				d2 = d2.Mul(1 / d2.Len())
			}
			if i == 0 {
				d1 = d2
			}
			if i+1 == len(cx) {
				d2 = d1
			}
			n1, n2 := geo.P2{X: -d1.Y, Y: d1.X}, geo.P2{X: -d2.Y, Y: d2.X}
			o := n1.Add(n2)
			if i == 0 || i+1 == len(cx) {
				o = n1
			}
			in = append(in, c.Add(o.Mul(t/2)))
			out = append(out, c.Sub(o.Mul(t/2)))
		}
		return append(out, in.Reverse()...)
	case "zig":
		n, t, h := int(p[0]), p[1], p[2]
		var lo, hi geo.Loop
		for i := 0; i <= n; i++ {
			y := 0.0
			if i%2 == 1 {
				y = h
			}
			x := float64(i) * 2 * t
			lo = append(lo, geo.P2{X: x, Y: y})
			hi = append(hi, geo.P2{X: x, Y: y + t})
		}
		return append(lo, hi.Reverse()...)
	case "ngon":
		n, r := int(p[0]), p[1]
		l := geo.Loop{}
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			l = append(l, geo.P2{X: r * math.Cos(a), Y: r * math.Sin(a)})
		}
		return l
	case "star":
		n := len(p) / 2
		l := geo.Loop{}
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * (float64(i) + p[2*i+1]) / float64(n)
			l = append(l, geo.P2{X: p[2*i] * math.Cos(a), Y: p[2*i] * math.Sin(a)})
		}
		return l
	}
	panic("shape " + s.Kind)
}

// Triangulate cuts a counter-clockwise simple polygon with clockwise holes into
// triangles by bridging the holes and clipping ears. Indices refer to the
// concatenation of outer and holes.
func Triangulate(outer geo.Loop, holes []geo.Loop) [][3]int {
	pts := append(geo.Loop{}, outer...)
	idx := make([]int, len(outer))
	for i := range idx {
		idx[i] = i
	}
	type hole struct {
		ids []int
		mx  float64
	}
	var hs []hole
	for _, h := range holes {
		ids := make([]int, len(h))
		mx := math.Inf(-1)
		for i, q := range h {
			ids[i] = len(pts)
			pts = append(pts, q)
			mx = math.Max(mx, q.X)
		}
		hs = append(hs, hole{ids, mx})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].mx > hs[j].mx })
	rest := hs
	for len(rest) > 0 {
		h := rest[0]
		rest = rest[1:]
		// the shortest bridge that crosses nothing
		bi, bj, bd := -1, -1, math.Inf(1)
		for i, a := range idx {
			for j, b := range h.ids {
				d := pts[a].Dist(pts[b])
				if d >= bd {
					continue
				}
				ok := true
				chk := func(u, v int) {
					if u == a || v == a || u == b || v == b {
						return
					}
					if pts[u] == pts[a] || pts[v] == pts[a] {
						// a duplicated bridge vertex: only the local direction matters; be conservative
						if geo.SegDist2(pts[u], pts[a], pts[b]) == 0 && geo.SegDist2(pts[v], pts[a], pts[b]) == 0 {
							ok = false
						}
						return
					}
					if geo.SegSegDist2(pts[a], pts[b], pts[u], pts[v]) < 1e-9 {
						ok = false
					}
				}
				for k := range idx {
					chk(idx[k], idx[(k+1)%len(idx)])
				}
				for _, o := range append([]hole{h}, rest...) {
					for k := range o.ids {
						chk(o.ids[k], o.ids[(k+1)%len(o.ids)])
					}
				}
				// the bridge must leave a into the interior of the polygon
				pr, nx := pts[idx[(i+len(idx)-1)%len(idx)]], pts[idx[(i+1)%len(idx)]]
				if !inCone(pr, pts[a], nx, pts[b]) {
					ok = false
				}
				if ok {
					bi, bj, bd = i, j, d
				}
			}
		}
		if bi < 0 {
			return nil
		}
		var ni []int
		ni = append(ni, idx[:bi+1]...)
		for k := 0; k <= len(h.ids); k++ {
			ni = append(ni, h.ids[(bj+k)%len(h.ids)])
		}
		ni = append(ni, idx[bi:]...)
		idx = ni
	}
	// ear clipping
	var out [][3]int
	for len(idx) > 3 {
		n := len(idx)
		best, bq := -1, -1.0
		for i := 0; i < n; i++ {
			a, b, c := pts[idx[(i+n-1)%n]], pts[idx[i]], pts[idx[(i+1)%n]]
			ar := b.Sub(a).Cross(c.Sub(b))
			if ar <= 1e-12 {
				continue
			}
			ok := true
			for k := 0; k < n && ok; k++ {
				q := pts[idx[k]]
				if q == a || q == b || q == c {
					continue
				}
				if b.Sub(a).Cross(q.Sub(a)) >= -1e-12 && c.Sub(b).Cross(q.Sub(b)) >= -1e-12 && a.Sub(c).Cross(q.Sub(c)) >= -1e-12 {
					ok = false
				}
			}
			if !ok {
				continue
			}
			l := math.Max(b.Dist(a), math.Max(c.Dist(b), a.Dist(c)))
			if q := ar / (l * l); q > bq {
				best, bq = i, q
			}
		}
		if best < 0 {
			return nil
		}
		out = append(out, [3]int{idx[(best+n-1)%n], idx[best], idx[(best+1)%n]})
		idx = append(append([]int{}, idx[:best]...), idx[best+1:]...)
	}
	out = append(out, [3]int{idx[0], idx[1], idx[2]})
	return out
}

func inCone(prev, v, next, q geo.P2) bool {
	left := func(a, b, c geo.P2) bool { return b.Sub(a).Cross(c.Sub(a)) > 0 }
	leftOn := func(a, b, c geo.P2) bool { return b.Sub(a).Cross(c.Sub(a)) >= 0 }
	if leftOn(v, next, prev) { // convex
		return left(v, q, prev) && left(q, v, next)
	}
	return !(leftOn(v, q, next) && leftOn(q, v, prev))
}
