package props

import (
	"math"

	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// refOffset is the loop whose edges have all moved by d to their right, trimmed
// at each other. An edge which vanishes on the way is left out from there on. It
// is empty if the whole convex loop vanishes, and nil where a concave loop is
// torn apart, a corner sticks out by more than 2 mm, or rounding decides.
func refOffset(l geo.Loop, d float64) (geo.Loop, string) {
	type edge struct {
		u, o, e geo.P2 // direction, start and end before the move
	}
	right := func(v geo.P2) geo.P2 { return geo.P2{X: v.Y, Y: -v.X} }
	var es []edge
	n := len(l)
	if n < 3 {
		return nil, "no polygon"
	}
	convex := true // seen from the right
	for i := range l {
		e, b := l[(i+1)%n].Sub(l[i]), l[i].Sub(l[(i+n-1)%n])
		if e.Len() < 0.02 {
			return nil, "short edge"
		}
		es = append(es, edge{e.Mul(1 / e.Len()), l[i], l[(i+1)%n]})
		s := b.Cross(e) / b.Len() / e.Len()
		if a := math.Abs(s); a > 1e-9 && (a < 1e-5 || a*b.Len()*e.Len() < 1e-5) {
			return nil, "almost straight corner"
		}
		if s > 1e-9 || b.Dot(e) < -0.99*b.Len()*e.Len() {
			convex = false
		}
	}
	// corner between two edges moved by t
	corner := func(a, b edge, t float64) (geo.P2, string) {
		p, q := a.o.Add(right(a.u).Mul(t)), b.o.Add(right(b.u).Mul(t))
		s := a.u.Cross(b.u)
		switch {
		case math.Abs(s) < 1e-9 && a.u.Dot(b.u) > 0 && math.Abs(q.Sub(p).Cross(a.u)) < 1e-9:
			return q, ""
		case math.Abs(s) < 1e-5:
			return p, "parallel neighbours"
		}
		return p.Add(a.u.Mul(q.Sub(p).Cross(b.u) / s)), ""
	}
	shrinks := func(a, b edge) float64 { // what an edge loses at this corner per mm
		return -a.u.Cross(b.u) / (1 + a.u.Dot(b.u))
	}
	for {
		n := len(es)
		if n < 3 {
			return geo.Loop{}, ""
		}
		for i := range es {
			a, b := es[(i+n-1)%n], es[i]
			s, c := a.u.Cross(b.u), 1+a.u.Dot(b.u)
			if convex && (s > 1e-3 || c < 1 && math.Abs(s) < 1e-9) { // no room between them any more
				return geo.Loop{}, ""
			}
			if c < 1 && math.Abs(s) < 1e-3 || convex && s > 1e-9 {
				return nil, "sharp corner"
			}
			q, why := corner(a, b, d)
			if why != "" {
				return nil, why
			}
			x, y := q.Sub(a.e.Add(right(a.u).Mul(d))), q.Sub(b.o.Add(right(b.u).Mul(d)))
			if (x.Dot(a.u) > -1e-3 || y.Dot(b.u) < 1e-3) && math.Max(x.Len(), y.Len()) > 1.99 {
				return nil, "sharp corner"
			}
		}
		// when each edge vanishes
		first, at := -1, math.Inf(1)
		when := make([]float64, n)
		for i := range es {
			a, b, c := es[(i+n-1)%n], es[i], es[(i+1)%n]
			p, why := corner(a, b, 0)
			q, why2 := corner(b, c, 0)
			if why+why2 != "" {
				return nil, why + why2
			}
			when[i] = math.Inf(1)
			if k := shrinks(a, b) + shrinks(b, c); k > 1e-9 {
				when[i] = q.Sub(p).Dot(b.u) / k
			}
			if when[i] < at {
				first, at = i, when[i]
			}
		}
		if math.Abs(at-d) < 5e-3 {
			return nil, "edge almost vanishes"
		}
		if at > d {
			break
		}
		if !convex && n > 3 && math.Min(when[(first+1)%n], when[(first+n-1)%n])-at < 1e-3 {
			return nil, "edges vanish together"
		}
		es = append(append([]edge{}, es[:first]...), es[first+1:]...)
	}
	n = len(es)
	res := make(geo.Loop, n)
	for i := range es {
		var why string
		if res[i], why = corner(es[(i+n-1)%n], es[i], d); why != "" {
			return nil, why
		}
	}
	for i := range es {
		e := res[(i+1)%n].Sub(res[i])
		if e.Dot(es[i].u) < 5e-3 {
			return nil, "edge almost vanishes"
		}
		if s := math.Abs(es[(i+n-1)%n].u.Cross(es[i].u)); s > 1e-9 && s*e.Len()*e.Len() < 1e-5 {
			return nil, "almost straight corner"
		}
	}
	if res.SelfDist() < 1e-3 || res.Area()*l.Area() <= 0 {
		return nil, "no room"
	}
	return res, ""
}

// corners drops points amid straight runs.
func corners(l geo.Loop) geo.Loop {
	var r geo.Loop
	n := len(l)
	for i := range l {
		a, b := l[i].Sub(l[(i+n-1)%n]), l[(i+1)%n].Sub(l[i])
		if math.Abs(a.Cross(b)) > 1e-8*a.Len()*b.Len() || a.Dot(b) < 0 {
			r = append(r, l[i])
		}
	}
	return r
}

// sameLoop: the same corners in the same cyclic order, extra points of got lie
// on the edges of want.
func sameLoop(want, got geo.Loop, tol float64) error {
	if len(got) < len(want) {
		return errf("%d corners, expected %d", len(got), len(want))
	}
	start := -1
	for i := range got {
		if got[i].Dist(want[0]) <= tol {
			start = i
			break
		}
	}
	if start < 0 {
		return errf("no corner at %v", want[0])
	}
	k := 0
	for i := 1; i <= len(got); i++ {
		q := got[(start+i)%len(got)]
		next := want[(k+1)%len(want)]
		if q.Dist(next) <= tol && k < len(want) {
			k++
			continue
		}
		if geo.SegDist2(q, want[k%len(want)], next) > tol {
			return errf("corner %d at %v, expected %v", k+1, q, next)
		}
	}
	if k != len(want) {
		return errf("corner at %v is missing", want[(k+1)%len(want)])
	}
	return nil
}

type offsetCase struct {
	Poly Poly    `json:"poly"`
	Skew float64 `json:"skew,omitempty"`
	N    geo.V   `json:"n"`
	O    geo.V   `json:"o"`
	D    float64 `json:"d"`
}

func (c offsetCase) loop() geo.Loop {
	l := c.Poly.Loop()
	for i := range l {
		l[i].X += c.Skew * l[i].Y
	}
	return l
}

func genOffset(t *rapid.T) offsetCase {
	c := offsetCase{Poly: drawPoly(t, "p", gen.P(t, "grid", 0.3)), N: geo.V{Z: 1}, D: gen.Pick(t, "d", 0.4, 0.4, 0.1, 0.8, 1.5, 0.05)}
	if gen.P(t, "d?", 0.5) {
		c.D = gen.Log(t, "dl", 0.02, 2)
	}
	if gen.P(t, "tight", 0.3) { // barely fits
		c.Poly.Scale, c.Poly.Split = 1, 0
		c.Skew = gen.Pick(t, "skew", 0, 0.3, 1, -2)
		c.Poly.Scale = c.D * gen.F(t, "tightby", 1, 20) / extentX(c.loop())
	}
	c.O = geo.V{Z: gen.Grid(t, "z", -2, 50, 0.5)}
	if gen.P(t, "tilted", 0.3) {
		c.N = gen.DrawDir(t, "n")
		c.O = drawPoint(t, "o", 60)
	}
	return c
}

func extentX(l geo.Loop) float64 {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, v := range l {
		lo, hi = math.Min(lo, v.X), math.Max(hi, v.X)
	}
	return hi - lo
}

func checkOffset(c offsetCase, r *fw.Rec) error {
	f := geo.NewFrame(c.O, c.N)
	if c.N == (geo.V{Z: 1}) {
		f = xyAt(c.O.Z)
	}
	l := c.loop()
	if !simple(l) {
		r.Excluded = "not simple"
		return nil
	}
	ref, why := refOffset(l, c.D)
	if ref == nil {
		r.Excluded = why
		return nil
	}
	r.NT()
	r.Tag("into=%v", l.Area() < 0)
	r.Tag("edges vanish=%v, all=%v", len(ref) < len(l), len(ref) == 0)
	pth := loopPath(f, l)
	before := append([]p.Point{}, pth.Points...)
	res := vip.MakeOffset(pth, c.D, f.N.Mul(gen.NewRng(uint64(len(l))).F()+0.1).Vec())
	for i := range before {
		if pth.Points[i] != before[i] {
			return errf("point %d of the path was changed", i)
		}
	}
	if len(ref) == 0 {
		if res != nil {
			return errf("offset by %g of a polygon which is too small for it: %v", c.D, res.Points)
		}
		return nil
	}
	if res == nil {
		return errf("no offset by %g of a polygon with %d corners", c.D, len(l))
	}
	if !geo.Closed(*res, 1e-6) {
		return errf("the offset is not closed: %v", res.Points)
	}
	for _, q := range res.Points {
		if d := geo.FromP(q).Sub(f.O).Dot(f.N); math.Abs(d) > 1e-6 {
			return errf("the offset leaves the plane by %g", d)
		}
	}
	if err := sameLoop(corners(ref), geo.PathLoop(f, *res), 1e-5); err != nil {
		return errf("offset by %g: %v", c.D, err)
	}
	return nil
}

// ---- C17 ----

type wallsCase struct {
	Layers [][]Poly `json:"layers"`
	Line   float64  `json:"line"`  // line width
	Walls  float64  `json:"walls"` // wall thickness in line widths
	Exact  bool     `json:"exact"` // thickness written as a decimal number
	Skirt  int      `json:"skirt"`
}

func genWalls(t *rapid.T) wallsCase {
	c := wallsCase{Line: gen.Pick(t, "line", 0.4, 0.4, 0.35, 0.3, 0.6, 0.1, 0.2, 0.7, 0.05)}
	if gen.P(t, "line?", 0.3) {
		c.Line = gen.F(t, "linef", 0.05, 0.8)
	}
	c.Walls = float64(gen.I(t, "walls", 0, 7))
	c.Exact = gen.P(t, "exact", 0.5)
	if gen.P(t, "part", 0.4) {
		c.Walls += gen.F(t, "wf", 0.05, 0.95)
	}
	for i := gen.I(t, "layers", 1, 3); i > 0; i-- {
		var l []Poly
		for j := gen.I(t, "contours", 0, 3); j > 0; j-- {
			q := drawPoly(t, "p", gen.P(t, "grid", 0.3))
			if q.Scale < 1 {
				q.Scale = 1
			}
			q.Scale *= gen.Pick(t, "big", 1.0, 2, 5, 0.3, 0.1)
			if gen.P(t, "tight", 0.25) { // about as large as the walls need
				q.Scale, q.Split = 1, 0
				q.Scale = c.Line * gen.F(t, "tightby", 1, 2*c.Walls+2) / extentX(q.Loop())
			}
			l = append(l, q)
		}
		c.Layers = append(c.Layers, l)
	}
	c.Skirt = gen.I(t, "skirt", 0, 5)
	return c
}

func (c wallsCase) thickness() float64 {
	w := c.Walls * c.Line
	if c.Exact { // as a user writes it
		w = math.Round(w*1000) / 1000
	}
	return w
}

func (c wallsCase) build() ([]p.Layer, [][]geo.Loop) {
	var ls []p.Layer
	var loops [][]geo.Loop
	for i, polys := range c.Layers {
		l := p.Layer{Order: i, Norm: p.AxisZ}
		var lo []geo.Loop
		for _, q := range polys {
			if simple(q.Loop()) {
				lo = append(lo, q.Loop())
				l.Paths = append(l.Paths, loopPath(xyAt(float64(i)), q.Loop()))
			}
		}
		ls = append(ls, l)
		loops = append(loops, lo)
	}
	return ls, loops
}

// refWalls are the offsets by one, two, ... line widths, as many as fit, or nil.
func refWalls(l geo.Loop, line float64, n int) ([]geo.Loop, string) {
	var res []geo.Loop
	for k := 0; k < n; k++ {
		if k > 0 {
			l = corners(l)
		}
		o, why := refOffset(l, line)
		if o == nil {
			return nil, why
		}
		if len(o) == 0 {
			return res, ""
		}
		if math.Abs(o.Area()) < 1e-3 || o.Area()*l.Area() < 0 || o.SelfDist() < 1e-6 {
			return nil, "no room"
		}
		res = append(res, o)
		l = o
	}
	return res, ""
}

func checkWalls(c wallsCase, r *fw.Rec) error {
	w := c.thickness() / c.Line
	n := int(math.Floor(w))
	if d := w - math.Round(w); math.Abs(d) < 1e-9 {
		n = int(math.Round(w))
		r.Tag("exact multiple")
	} else if math.Abs(d) < 1e-4 {
		r.Excluded = "almost a multiple"
		return nil
	}
	layers, loops := c.build()
	want := make([][][]geo.Loop, len(layers))
	for i := range loops {
		for _, l := range loops[i] {
			ws, why := refWalls(l, c.Line, n-1)
			if why != "" {
				r.Excluded = why
				return nil
			}
			want[i] = append(want[i], ws)
		}
	}
	set := baseSettings(0.2)
	set.WallThickness = c.thickness()
	set.GcodeSettings.LineWidth = c.Line
	before := make([][]p.Path, len(layers))
	for i := range layers {
		for _, pth := range layers[i].Paths {
			before[i] = append(before[i], p.Path{Points: append([]p.Point{}, pth.Points...)})
		}
	}
	res := vip.PrepareLayers(layers, set, nil, nil)
	if len(res) != len(before) {
		return errf("%d layers, given %d", len(res), len(before))
	}
	r.Tag("%d walls", n)
	for i, l := range res {
		if l.Order != i || l.Norm != p.AxisZ {
			return errf("layer %d has number %d and normal %v", i, l.Order, l.Norm)
		}
		if len(l.Paths) != len(before[i]) {
			return errf("layer %d has %d contours, given %d", i, len(l.Paths), len(before[i]))
		}
		for k := range before[i] {
			if !samePoints(before[i][k], l.Paths[k]) {
				return errf("layer %d: contour %d was changed", i, k)
			}
		}
		if len(l.Fill) != 0 {
			return errf("layer %d is filled, without fill planes", i)
		}
		var middle, inner []geo.Loop
		for _, ws := range want[i] {
			if len(ws) < n-1 {
				r.Tag("walls that fit %v", len(ws) > 0)
			}
			if len(ws) > 0 {
				middle = append(middle, ws[:len(ws)-1]...)
				inner = append(inner, ws[len(ws)-1])
			}
		}
		for _, g := range []struct {
			name string
			want []geo.Loop
			got  []p.Path
		}{{"middle", middle, l.MiddlePs}, {"inner", inner, l.InnerPs}} {
			if len(g.got) != len(g.want) {
				return errf("layer %d has %d %s walls for %d contours, expected %d (thickness %g, line %g: %d walls)", i, len(g.got), g.name, len(before[i]), len(g.want), set.WallThickness, c.Line, n)
			}
			for k := range g.want {
				if !geo.Closed(g.got[k], 1e-6) {
					return errf("layer %d: %s wall %d is not closed", i, g.name, k)
				}
				if err := sameLoop(corners(g.want[k]), geo.PathLoop(xyAt(float64(i)), g.got[k]), 3e-5); err != nil {
					return errf("layer %d: %s wall %d: %v", i, g.name, k, err)
				}
				r.NT()
			}
		}
	}
	return nil
}

func samePoints(a, b p.Path) bool {
	if len(a.Points) != len(b.Points) {
		return false
	}
	for i := range a.Points {
		if a.Points[i] != b.Points[i] {
			return false
		}
	}
	return true
}

func checkSkirt(c wallsCase, r *fw.Rec) error {
	layers, loops := c.build()
	first := layers[0]
	var want []geo.Loop
	unchanged := map[int]int{}
	for n, l := range loops[0] {
		ws, why := refWalls(l.Reverse(), c.Line, c.Skirt) // the air is on the left
		if why != "" {
			r.Excluded = why
			return nil
		}
		for k := range ws {
			want = append(want, ws[len(ws)-1-k].Reverse())
		}
		unchanged[len(want)] = n
		want = append(want, l)
	}
	res := vip.SkirtPathes(first, c.Skirt, c.Line)
	r.Tag("skirt %d", c.Skirt)
	if len(res.Paths) != len(want) {
		return errf("%d contours with %d skirt lines give %d paths", len(loops[0]), c.Skirt, len(res.Paths))
	}
	for k := range want {
		if n, ok := unchanged[k]; ok {
			if !samePoints(res.Paths[k], layers[0].Paths[n]) {
				return errf("contour %d was changed", n)
			}
			continue
		}
		if !geo.Closed(res.Paths[k], 1e-6) {
			return errf("skirt line %d is not closed", k)
		}
		if err := sameLoop(corners(want[k]), geo.PathLoop(xyAt(0), res.Paths[k]), 3e-5); err != nil {
			return errf("path %d (skirt %d): %v", k, c.Skirt, err)
		}
		r.NT()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C16", Subs: []*fw.Sub{fw.S("offset", 40000, genOffset, checkOffset)}})
	fw.Register(&fw.Prop{ID: "C17", Subs: []*fw.Sub{
		fw.S("walls", 30000, genWalls, checkWalls),
		fw.S("skirt", 8000, genWalls, checkSkirt),
	}})
}
