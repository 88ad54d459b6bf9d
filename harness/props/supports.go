package props

import (
	"math"

	"github.com/l1va/goosli/helpers"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- C15 supports ----

type supportCase struct {
	Ms     []gen.MeshSpec `json:"ms"` // one above the other
	Gap    []float64      `json:"gap"`
	Side   []geo.P2       `json:"side"`
	Z      geo.V          `json:"z"`
	Zlen   float64        `json:"zlen"`
	N      float64        `json:"n"` // layers
	Angle  float64        `json:"angle"`
	Offset float64        `json:"offset"`
}

func genSupport(t *rapid.T) supportCase {
	var c supportCase
	nb := gen.I(t, "nb", 1, 3)
	grid := gen.P(t, "grid", 0.4)
	for i := 0; i < nb; i++ {
		var k []string
		switch gen.I(t, "kinds", 0, 3) {
		case 0:
			k = []string{"voxel"}
		case 1:
			k = []string{"box", "prism"}
		}
		c.Ms = append(c.Ms, gen.DrawMesh(t, "m", gen.MeshOpt{Kinds: k, Bodies: 1, Grid: grid, Rotate: true, Upright: true, Cavity: i == 0}))
		if grid {
			c.Gap = append(c.Gap, gen.Grid(t, "gap", 0, 4, 0.5))
			c.Side = append(c.Side, geo.P2{X: gen.Grid(t, "sx", -8, 8, 0.5), Y: gen.Grid(t, "sy", -8, 8, 0.5)})
		} else {
			c.Gap = append(c.Gap, gen.F(t, "gap", 0.1, 5))
			c.Side = append(c.Side, geo.P2{X: gen.F(t, "sx", -8, 8), Y: gen.F(t, "sy", -8, 8)})
		}
	}
	c.Z, c.Zlen = geo.V{Z: 1}, 1
	if gen.P(t, "dir?", 0.3) {
		c.Z = gen.DrawDir(t, "dir").Unit()
		c.Zlen = gen.Pick(t, "zlen", 1, 0.5, 20)
	}
	c.N = gen.F(t, "n", 2, 12)
	if gen.P(t, "whole", 0.3) {
		c.N = math.Round(c.N)
	}
	c.Angle = gen.Pick(t, "ang", 0.0, 30, 45, 60, 85)
	if gen.P(t, "anyang", 0.6) {
		c.Angle = gen.F(t, "angle", 0, 88)
	}
	switch gen.I(t, "ok", 0, 4) {
	case 0:
		c.Offset = gen.Pick(t, "o", 0.5, 0.1, 1, 0.3)
	case 1:
		c.Offset = gen.F(t, "of", 0, 2)
	case 2:
		c.Offset = gen.F(t, "ob", 2, 30)
	}
	return c
}

func (c supportCase) build() geo.Mesh {
	var m geo.Mesh
	top := 0.0
	for i, s := range c.Ms {
		b := s.Build()
		lo, _ := b.Box()
		d := geo.V{X: c.Side[i].X, Y: c.Side[i].Y, Z: top - lo.Z}
		if i > 0 {
			d.Z += c.Gap[i]
		}
		b = b.Map(func(v geo.V) geo.V { return v.Add(d) })
		_, hi := b.Box()
		top = hi.Z
		m = append(m, b...)
	}
	return m
}

const (
	wallClear = iota
	wallBlocked
	wallUnsure
)

// contact tells how a triangle of the model meets a triangle of a wall.
func contact(w, t geo.Tri, eps float64) int {
	for k := 0; k < 3; k++ { // boxes apart
		get := func(v geo.V) float64 { return [3]float64{v.X, v.Y, v.Z}[k] }
		lo := func(a geo.Tri) float64 { return math.Min(get(a[0]), math.Min(get(a[1]), get(a[2]))) }
		hi := func(a geo.Tri) float64 { return math.Max(get(a[0]), math.Max(get(a[1]), get(a[2]))) }
		if lo(w) > hi(t)+eps || lo(t) > hi(w)+eps {
			return wallClear
		}
	}
	n := w.N().Unit()
	dist := func(v geo.V) float64 { return v.Sub(w[0]).Dot(n) }
	clip := func(poly []geo.V, f func(geo.V) float64) []geo.V { // keeps f >= 0
		var r []geo.V
		for i, a := range poly {
			b := poly[(i+1)%len(poly)]
			fa, fb := f(a), f(b)
			if fa >= 0 {
				r = append(r, a)
			}
			if (fa >= 0) != (fb >= 0) {
				r = append(r, a.Add(b.Sub(a).Mul(fa/(fa-fb))))
			}
		}
		return r
	}
	poly := t[:]
	poly = clip(poly, func(v geo.V) float64 { return eps - dist(v) })
	poly = clip(poly, func(v geo.V) float64 { return eps + dist(v) })
	for i := 0; i < 3; i++ {
		a, b := w[i], w[(i+1)%3]
		in := n.Cross(b.Sub(a)).Unit()
		poly = clip(poly, func(v geo.V) float64 { return v.Sub(a).Dot(in) + eps })
	}
	if len(poly) == 0 {
		return wallClear
	}
	mid := geo.V{}
	for _, v := range poly {
		mid = mid.Add(v.Mul(1 / float64(len(poly))))
	}
	depth := math.Inf(1)
	for i := 0; i < 3; i++ {
		far := 0.0
		for _, v := range poly {
			far = math.Max(far, geo.SegDist(v, w[i], w[(i+1)%3]))
		}
		if far < 10*eps {
			return wallClear // touches a side
		}
		depth = math.Min(depth, geo.SegDist(mid, w[i], w[(i+1)%3]))
	}
	size, lo, hi := 0.0, 0.0, 0.0
	for _, v := range poly {
		size = math.Max(size, v.Dist(mid))
	}
	for _, v := range t {
		lo, hi = math.Min(lo, dist(v)), math.Max(hi, dist(v))
	}
	if depth > 1e-3 && size > 1e-3 && lo < -1e-3 && hi > 1e-3 {
		return wallBlocked
	}
	return wallUnsure
}

// wall stands under the line c1 c2 on s1 s2.
type wall struct {
	c1, c2, s1, s2 geo.V
	h1, h2         float64
	st             [4]int // halves: s1 c1 c2, s1 s2 c2, s2 c2 c1, s2 s1 c1
}

func (w *wall) half(i int) geo.Tri {
	return [4]geo.Tri{{w.s1, w.c1, w.c2}, {w.s1, w.s2, w.c2}, {w.s2, w.c2, w.c1}, {w.s2, w.s1, w.c1}}[i]
}

func (w *wall) judge(m geo.Mesh, eps float64) {
	for i := range w.st {
		h := w.half(i)
		if h.Area() < 1e-9 {
			w.st[i] = wallUnsure
			continue
		}
		for _, t := range m {
			if s := contact(h, t, eps); s == wallBlocked {
				w.st[i] = s
				break
			} else if s == wallUnsure {
				w.st[i] = s
			}
		}
		if w.st[i] == wallBlocked {
			continue
		}
		mid := h[0].Add(h[1]).Add(h[2]).Mul(1.0 / 3)
		if m.Dist(mid) < 1e-3 {
			w.st[i] = wallUnsure
		} else if math.Abs(m.Winding(mid)) > 0.5 {
			w.st[i] = wallBlocked
		}
	}
}

// at tells whether the wall stands at the share u of its line, z above its foot.
func (w *wall) at(u, z float64) int {
	top := w.h1 + u*(w.h2-w.h1)
	if w.h1 < 0 || w.h2 < 0 || math.Abs(z-top) < 1e-3 { // lowered beneath the lowest point in part
		return wallUnsure
	}
	if z > top {
		return wallBlocked
	}
	da, db := z-u*w.h2, z-(1-u)*w.h1
	if math.Abs(da) < 1e-3 || math.Abs(db) < 1e-3 {
		return wallUnsure
	}
	a, b := w.st[0], w.st[2]
	if da < 0 {
		a = w.st[1]
	}
	if db < 0 {
		b = w.st[3]
	}
	if a == b {
		return a
	}
	return wallUnsure
}

func lineKey(a, b geo.V) [2]geo.V {
	if a.X < b.X || a.X == b.X && (a.Y < b.Y || a.Y == b.Y && a.Z < b.Z) {
		return [2]geo.V{a, b}
	}
	return [2]geo.V{b, a}
}

func borderLines(ts []geo.Tri) [][2]geo.V {
	n := map[[2]geo.V]int{}
	for _, t := range ts {
		for k := 0; k < 3; k++ {
			n[lineKey(t[k], t[(k+1)%3])]++
		}
	}
	var r [][2]geo.V
	for _, t := range ts {
		for k := 0; k < 3; k++ {
			if n[lineKey(t[k], t[(k+1)%3])] == 1 {
				r = append(r, [2]geo.V{t[k], t[(k+1)%3]})
			}
		}
	}
	return r
}

// sameContour: the same points in the same order, closed ones from any start.
func sameContour(a, b p.Path) bool {
	if len(a.Points) != len(b.Points) {
		return false
	}
	n := len(a.Points)
	eq := func(s, m int) bool {
		for i := 0; i < m; i++ {
			if a.Points[i].DistanceTo(b.Points[(s+i)%m]) > 1e-7 {
				return false
			}
		}
		return true
	}
	if eq(0, n) {
		return true
	}
	if !geo.Closed(a, 1e-7) || !geo.Closed(b, 1e-7) {
		return false
	}
	for s := 1; s < n-1; s++ {
		if eq(s, n-1) {
			return true
		}
	}
	return false
}

func checkSupport(c supportCase, r *fw.Rec) error {
	m := c.build()
	if len(m) > 900 {
		r.Excluded = "large"
		return nil
	}
	u := c.Z.Unit()
	lo, hi := m.Range(u)
	H := hi - lo
	S := 1 + math.Max(H, math.Max(math.Abs(lo), math.Abs(hi)))
	for _, t := range m {
		S = math.Max(S, absMax(t[:]))
	}
	// the overhang
	var over []geo.Tri
	lim := 90 - c.Angle
	if f := c.N - math.Floor(c.N); f > 0 && f < 1e-6 {
		c.N = math.Floor(c.N)
	}
	for _, t := range m {
		a := geo.AngleDeg(t.N(), u.Mul(-1))
		if math.Abs(a-lim) < 1e-5 {
			r.Excluded = "face at the limit"
			return nil
		}
		if a < lim {
			over = append(over, t)
		}
	}
	var walls []*wall
	eps := 1e-7
	for _, l := range borderLines(over) {
		w := &wall{c1: l[0].Sub(u.Mul(c.Offset)), c2: l[1].Sub(u.Mul(c.Offset))}
		w.h1, w.h2 = w.c1.Dot(u)-lo, w.c2.Dot(u)-lo
		w.s1, w.s2 = w.c1.Sub(u.Mul(w.h1)), w.c2.Sub(u.Mul(w.h2))
		if math.Max(w.h1, w.h2) < 1e-6 {
			continue
		}
		w.judge(m, eps)
		walls = append(walls, w)
	}

	set := baseSettings(H / c.N * (1 + 1e-9)) // never by rounding one layer more
	set.ColorizedAngle, set.UnitVector, set.SupportOffset = c.Angle, u.Vec(), c.Offset
	z := u.Mul(c.Zlen).Vec()
	off := slicers.SliceByVector(m.Goosli(), z, set)
	set.SupportsOn = true
	on := slicers.SliceByVector(m.Goosli(), z, set)

	n := math.Ceil(c.N - 1e-9)
	layers := map[int]p.Layer{}
	for _, l := range on {
		if _, ok := layers[l.Order]; ok {
			return errf("two layers numbered %d", l.Order)
		}
		layers[l.Order] = l
	}
	plain := map[int]p.Layer{}
	for _, l := range off {
		plain[l.Order] = l
		if _, ok := layers[l.Order]; !ok && len(l.Paths) > 0 {
			return errf("layer %d is there without supports only", l.Order)
		}
	}
	judged, added := 0, 0
	for i := 0; i < int(n); i++ {
		l, ok := layers[i]
		if !ok {
			l.Norm = u.Vec()
		}
		if geo.FromV(l.Norm).Dist(u) > 1e-9 {
			return errf("layer %d has normal %v", i, l.Norm)
		}
		h := (float64(i) + 0.5) * H / n
		// the contours of the model
		used := make([]bool, len(l.Paths))
	contours:
		for k, a := range plain[i].Paths {
			for j, b := range l.Paths {
				if !used[j] && sameContour(a, b) {
					used[j] = true
					continue contours
				}
			}
			return errf("layer %d: contour %d %v of the model is not there with supports", i, k, a.Points)
		}
		var segs [][2]geo.V
		for j, b := range l.Paths {
			if used[j] {
				continue
			}
			if len(b.Points) < 2 {
				return errf("layer %d: a support line of %d points", i, len(b.Points))
			}
			for k := 1; k < len(b.Points); k++ {
				segs = append(segs, [2]geo.V{geo.FromP(b.Points[k-1]), geo.FromP(b.Points[k])})
			}
		}
		added += len(segs)
		tol := 2e-5 + 1e-9*S
		near := func(w *wall, q geo.V) (float64, bool) { // share of the line beneath which q lies
			a, b := w.s1, w.s2
			d := b.Sub(a)
			if d.Len() < 1e-6 {
				return 0, q.Sub(u.Mul(h)).Dist(a) < tol
			}
			f := q.Sub(u.Mul(h))
			k := f.Sub(a).Dot(d) / d.Dot(d)
			return math.Max(0, math.Min(1, k)), geo.SegDist(f, a, b) < tol
		}
		for _, s := range segs {
			for _, f := range []float64{0.02, 0.27, 0.5, 0.73, 0.98} {
				q := s[0].Add(s[1].Sub(s[0]).Mul(f))
				if d := q.Dot(u) - lo - h; math.Abs(d) > 2e-8+1e-11*S {
					return errf("layer %d: support %g off the layer's height", i, d)
				}
				why := "under no border line of the overhang"
				fine := false
				for _, w := range walls {
					k, ok := near(w, q)
					if !ok {
						continue
					}
					if w.s1.Dist(w.s2) < 1e-3 || w.at(k, h) != wallBlocked {
						fine = true
						break
					}
					why = "where the model is in the way or above the line"
				}
				if !fine {
					return errf("layer %d, %g above the lowest point: support at %v is %s", i, h, q, why)
				}
			}
		}
		for _, w := range walls {
			if math.Abs(w.h1-h) < 1e-4 || math.Abs(w.h2-h) < 1e-4 || w.s1.Dist(w.s2) < 1e-2 {
				continue
			}
			for _, f := range []float64{0.03, 0.2, 0.37, 0.5, 0.61, 0.8, 0.97} {
				if w.at(f, h) != wallClear {
					continue
				}
				q := w.s1.Add(w.s2.Sub(w.s1).Mul(f)).Add(u.Mul(h))
				judged++
				found := false
				for _, s := range segs {
					if geo.SegDist(q, s[0], s[1]) < tol {
						found = true
						break
					}
				}
				if !found {
					return errf("layer %d, %g above the lowest point: no support at %v, under %v..%v, where nothing is in the way", i, h, q, w.c1, w.c2)
				}
			}
		}
	}
	r.Count("support points judged", judged)
	if judged > 0 {
		r.NT()
	}
	bl, un := 0, 0
	for _, w := range walls {
		for _, s := range w.st {
			switch s {
			case wallBlocked:
				bl++
			case wallUnsure:
				un++
			}
		}
	}
	r.Count("walls", len(walls))
	r.Count("wall halves in the way", bl)
	r.Count("wall halves not judged", un)
	r.Tag("bodies %d", len(c.Ms))
	if len(over) == 0 {
		r.Tag("no overhang")
		if added > 0 {
			return errf("%d lines added without overhang", added)
		}
	}
	if bl > 0 {
		r.Tag("wall in the way")
	}
	if c.Offset > 0 {
		r.Tag("offset")
	}
	if u.Z != 1 {
		r.Tag("other direction")
	}
	if added > 0 {
		r.Tag("added")
	}
	return nil
}

// border lines of sets of triangles
type borderCase struct {
	M    gen.MeshSpec `json:"m"`
	Keep uint64       `json:"keep"`
	Den  int          `json:"den"`
}

func genBorder(t *rapid.T) borderCase {
	return borderCase{gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 2, Rotate: true, Grid: true, Kinds: []string{"box", "prism", "voxel", "loft"}}), gen.Seed(t, "keep"), gen.I(t, "den", 1, 5)}
}

func checkBorder(c borderCase, r *fw.Rec) error {
	rng := gen.NewRng(c.Keep)
	var ts []geo.Tri
	n := map[[2]geo.V]int{}
	for _, t := range c.M.Build() {
		if rng.N(6) >= c.Den {
			continue
		}
		ok := true
		for k := 0; k < 3; k++ {
			ok = ok && n[lineKey(t[k], t[(k+1)%3])] < 2
		}
		if !ok || len(ts) > 300 {
			continue
		}
		for k := 0; k < 3; k++ {
			n[lineKey(t[k], t[(k+1)%3])]++
		}
		ts = append(ts, t)
	}
	want := map[[2]geo.V]bool{}
	for _, l := range borderLines(ts) {
		want[lineKey(l[0], l[1])] = true
	}
	in := geo.Mesh(ts).Goosli().Triangles
	for name, f := range map[string]func([]p.Triangle) []p.Line{"MakeUndoubledLinesFromTriangles": helpers.MakeUndoubledLinesFromTriangles, "DeleteInternalLines": helpers.DeleteInternalLines} {
		got := f(append([]p.Triangle{}, in...))
		seen := map[[2]geo.V]bool{}
		for _, l := range got {
			k := lineKey(geo.FromP(l.P1), geo.FromP(l.P2))
			if !want[k] {
				return errf("%s of %d triangles gives %v, which is no border line", name, len(ts), k)
			}
			if seen[k] {
				return errf("%s of %d triangles gives %v twice", name, len(ts), k)
			}
			seen[k] = true
		}
		if len(seen) != len(want) {
			return errf("%s of %d triangles gives %d of %d border lines", name, len(ts), len(seen), len(want))
		}
	}
	if len(want) > 0 && len(want) < 3*len(ts) {
		r.NT()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C15", Subs: []*fw.Sub{
		fw.S("walls", 6000, genSupport, checkSupport),
		fw.S("border", 2000, genBorder, checkBorder),
	}})
}
