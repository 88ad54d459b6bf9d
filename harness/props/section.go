package props

import (
	"math"
	"sort"

	p "github.com/l1va/goosli/primitives"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- C07 plane sections of triangles and segments ----

type gridSection struct {
	T [3][3]int `json:"t"`
	P [3]int    `json:"p"`
	N [3]int    `json:"n"`
	K int       `json:"k"` // normal and everything scaled by powers of two
	S int       `json:"s"`
}

func genGridSection(t *rapid.T) gridSection {
	var c gridSection
	m := gen.Pick(t, "m", 2, 6, 20)
	pt := func(l string) (r [3]int) {
		for k := range r {
			r[k] = gen.I(t, l, -m, m)
		}
		return
	}
	for k := range c.T {
		c.T[k] = pt("t")
	}
	c.N = [3]int{gen.I(t, "nx", -3, 3), gen.I(t, "ny", -3, 3), gen.I(t, "nz", -3, 3)}
	if c.N == ([3]int{}) {
		c.N[2] = 1
	}
	switch gen.I(t, "where", 0, 2) {
	case 0:
		c.P = pt("p")
	case 1:
		c.P = c.T[gen.I(t, "pv", 0, 2)]
	case 2:
		c.P = c.T[0]
		// a plane through an edge
		e := geo.V{X: float64(c.T[1][0] - c.T[0][0]), Y: float64(c.T[1][1] - c.T[0][1]), Z: float64(c.T[1][2] - c.T[0][2])}
		x := e.Cross(geo.V{X: float64(c.N[0]), Y: float64(c.N[1]), Z: float64(c.N[2])})
		if x.Len() > 0 {
			c.N = [3]int{int(x.X), int(x.Y), int(x.Z)}
		}
	}
	c.K = gen.I(t, "k", -8, 4)
	c.S = gen.I(t, "s", -3, 4)
	return c
}

func iv(a [3]int) geo.V { return geo.V{X: float64(a[0]), Y: float64(a[1]), Z: float64(a[2])} }

func checkGridSection(c gridSection, r *fw.Rec) error {
	s := math.Ldexp(1, c.S)
	var t geo.Tri
	var d [3]float64 // exact
	n := iv(c.N)
	for k := range t {
		t[k] = iv(c.T[k]).Mul(s)
		d[k] = iv(c.T[k]).Sub(iv(c.P)).Dot(n)
	}
	if t.N().Len() == 0 {
		r.Excluded = "degenerate triangle"
		return nil
	}
	pl := p.Plane{P: iv(c.P).Mul(s).P(), N: n.Mul(math.Ldexp(1, c.K)).Vec()}
	return judgeSection(t, pl, d, true, r)
}

type anySection struct {
	T geo.Tri `json:"t"`
	P geo.V   `json:"p"`
	N geo.V   `json:"n"`
}

func genAnySection(t *rapid.T) anySection {
	var c anySection
	o := drawPoint(t, "o", gen.Pick(t, "far", 10, 100, 1000.0))
	s := gen.Log(t, "s", 1e-2, 100)
	for k := range c.T {
		c.T[k] = o.Add(gen.DrawDir(t, "v").Unit().Mul(s * gen.F(t, "l", 0.1, 1)))
	}
	c.N = drawVec(t, "n", 1e-2, 1e2)
	// through a point of the triangle or near it
	a, b := gen.F(t, "a", -0.2, 1.2), gen.F(t, "b", -0.2, 1.2)
	c.P = c.T[0].Add(c.T[1].Sub(c.T[0]).Mul(a)).Add(c.T[2].Sub(c.T[0]).Mul(b))
	if gen.P(t, "away", 0.3) {
		f := geo.NewFrame(c.P, c.N)
		c.P = c.P.Add(f.E1.Mul(gen.F(t, "e", -100, 100)))
	}
	return c
}

func checkAnySection(c anySection, r *fw.Rec) error {
	S := 1 + absMax(c.T[:]) + c.P.MaxAbs()
	l := math.Max(c.T[0].Dist(c.T[1]), math.Max(c.T[1].Dist(c.T[2]), c.T[2].Dist(c.T[0])))
	if c.T.N().Len() < 1e-3*l*l {
		r.Excluded = "needle triangle"
		return nil
	}
	u := c.N.Unit()
	var d [3]float64
	for k := range d {
		d[k] = c.T[k].Sub(c.P).Dot(u)
		if math.Abs(d[k]) < 1e-9*S {
			r.Excluded = "vertex within rounding of the plane"
			return nil
		}
	}
	return judgeSection(c.T, p.Plane{P: c.P.P(), N: c.N.Vec()}, d, false, r)
}

// judgeSection compares with the section given the vertices' signed distances d
// (up to a positive factor). Points of the plane count as in front.
func judgeSection(t geo.Tri, pl p.Plane, d [3]float64, exact bool, r *fw.Rec) error {
	gt := p.NewTriangle(t[0].P(), t[1].P(), t[2].P())
	keep := gt
	N := geo.FromV(pl.N)
	u := N.Unit()
	P := geo.FromP(pl.P)
	S := 1 + absMax(t[:]) + P.MaxAbs()
	desc := func() string {
		return errf("triangle %v %v %v, plane at %v normal %v", t[0], t[1], t[2], P, N).Error()
	}
	// segments: the three edges
	for k := 0; k < 3; k++ {
		a, b := d[k], d[(k+1)%3]
		for dir := 0; dir < 2; dir++ {
			p1, p2 := t[k], t[(k+1)%3]
			if dir == 1 {
				p1, p2 = p2, p1
			}
			got := pl.IntersectSegment(p1.P(), p2.P())
			want := a != b && !((a > 0 && b > 0) || (a < 0 && b < 0))
			if exact || (a != b && math.Abs(a-b) > 1e-9*S) {
				if (got != nil) != want {
					return errf("segment %v %v and plane at %v normal %v: cut %v, want %v", p1, p2, P, N, got != nil, want)
				}
			}
			if got != nil {
				g := geo.FromP(*got)
				if math.Abs(g.Sub(P).Dot(u)) > 1e-11*S || geo.SegDist(g, p1, p2) > 1e-11*S {
					return errf("segment %v %v and plane at %v normal %v: cut in %v, which is not on both", p1, p2, P, N, g)
				}
			}
		}
	}
	if pl.PointInFront(t[0].P()) != (d[0] >= 0) {
		return errf("point %v in front of plane at %v normal %v: %v", t[0], P, N, d[0] < 0)
	}
	if mn, mx := math.Min(d[0], math.Min(d[1], d[2])), math.Max(d[0], math.Max(d[1], d[2])); exact && pl.Intersect(&gt) != (mn <= 0 && mx >= 0) {
		return errf("%s: Intersect = %v", desc(), !(mn <= 0 && mx >= 0))
	}
	got := pl.IntersectTriangle(&gt)
	if gt != keep {
		return errf("the triangle changed")
	}
	front := 0
	on := 0
	for _, x := range d {
		if x >= 0 {
			front++
		}
		if x == 0 {
			on++
		}
	}
	r.Tag("front=%d on=%d", front, on)
	if front == 0 || front == 3 {
		if got != nil {
			return errf("%s: not separated but cut in %v %v", desc(), got.P1, got.P2)
		}
		return nil
	}
	// reference section
	var ends []geo.V
	var tols []float64
	for k := 0; k < 3; k++ {
		a, b := d[k], d[(k+1)%3]
		if (a >= 0) != (b >= 0) {
			e := t[(k+1)%3].Sub(t[k])
			ends = append(ends, t[k].Add(e.Mul(a/(a-b))))
			tol := 2e-8
			if !exact {
				tol += 1e-14 * S * e.Len() / math.Abs(a-b) * 4
			}
			tols = append(tols, tol)
		}
	}
	L := ends[0].Dist(ends[1])
	if L < 4e-6+tols[0]+tols[1] {
		if L == 0 && exact && got != nil {
			return errf("%s: touches the plane in one point but is cut in %v %v", desc(), got.P1, got.P2)
		}
		r.Tag("short section")
		return nil
	}
	r.NT()
	if got == nil {
		return errf("%s: separated but not cut (section %v %v)", desc(), ends[0], ends[1])
	}
	a, b := geo.FromP(got.P1), geo.FromP(got.P2)
	ok := (a.Dist(ends[0]) <= tols[0] && b.Dist(ends[1]) <= tols[1]) || (a.Dist(ends[1]) <= tols[1] && b.Dist(ends[0]) <= tols[0])
	if !ok {
		return errf("%s: cut in %v %v, want %v %v", desc(), a, b, ends[0], ends[1])
	}
	for _, e := range []geo.V{a, b} {
		if math.Abs(e.Sub(P).Dot(u)) > 2e-8+1e-12*S {
			return errf("%s: section end %v is not in the plane", desc(), e)
		}
	}
	right := b.Sub(a).Cross(N)
	if right.Dot(t.N()) > 0 {
		return errf("%s: section %v to %v has the solid on its left", desc(), a, b)
	}
	return nil
}

// ---- C08 joining ----

type joinCase struct {
	Verts []geo.V `json:"verts"` // distinct places, at least 1e-3 apart
	Paths [][]int `json:"paths"` // directed paths over the places
	Jit   float64 `json:"jit"`
	Seed  uint64  `json:"seed"`
}

func genJoin(t *rapid.T) joinCase {
	var c joinCase
	nv := gen.I(t, "nv", 2, 14)
	unit := gen.Pick(t, "unit", 1.0, 0.1, 1e-2, 2e-3, 7.3)
	span := gen.I(t, "span", 1, 4)
	off := drawPoint(t, "off", 100)
	flat := gen.P(t, "flat", 0.5)
	ax := gen.I(t, "flatax", 0, 2)
	seen := map[[3]int]bool{}
	var rot *gen.Rot
	if gen.P(t, "rot?", 0.3) {
		rot = &gen.Rot{Axis: gen.DrawDir(t, "rax"), Deg: drawAngle(t, "rd")}
	}
	for i := 0; i < nv; i++ {
		k := [3]int{gen.I(t, "x", 0, span), gen.I(t, "y", 0, span), gen.I(t, "z", 0, span)}
		if flat {
			k[ax] = 0
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		v := iv(k).Mul(unit)
		if rot != nil {
			v = geo.Rot(v, rot.Axis, rot.Deg)
		}
		c.Verts = append(c.Verts, v.Add(off))
	}
	nv = len(c.Verts)
	if nv < 2 {
		c.Verts = append(c.Verts, c.Verts[0].Add(geo.V{X: 1, Y: 0.5}))
		nv = 2
	}
	walk := func(n int) []int {
		w := []int{gen.I(t, "w0", 0, nv-1)}
		for len(w) < n {
			x := gen.I(t, "w", 0, nv-2)
			if x >= w[len(w)-1] {
				x++
			}
			w = append(w, x)
		}
		return w
	}
	loopsOnly := gen.P(t, "loops", 0.5)
	for i := gen.I(t, "n", 1, 6); i > 0; i-- {
		w := walk(gen.I(t, "wl", 2, 10))
		if loopsOnly || gen.P(t, "loop", 0.5) {
			if w[len(w)-1] == w[0] {
				w = w[:len(w)-1]
			}
			if len(w) < 2 {
				continue
			}
			w = append(w, w[0])
		}
		// cut it in pieces
		for len(w) > 1 {
			k := gen.Pick(t, "piece", 1, 1, 1, 2, 3, 8)
			if k > len(w)-1 {
				k = len(w) - 1
			}
			c.Paths = append(c.Paths, append([]int{}, w[:k+1]...))
			w = w[k:]
		}
	}
	c.Seed = gen.Seed(t, "perm")
	if gen.P(t, "jit?", 0.5) {
		c.Jit = gen.Pick(t, "jit", 1e-8, 2e-8, 1e-12)
	}
	return c
}

func (c joinCase) build() []p.Path {
	rg := gen.NewRng(c.Seed)
	out := make([]p.Path, 0, len(c.Paths))
	for _, i := range rg.Perm(len(c.Paths)) {
		var pth p.Path
		for _, v := range c.Paths[i] {
			j := geo.V{X: rg.F() - 0.5, Y: rg.F() - 0.5, Z: rg.F() - 0.5}.Mul(c.Jit * 2)
			pth.Points = append(pth.Points, c.Verts[v].Add(j).P())
		}
		out = append(out, pth)
	}
	return out
}

func (c joinCase) id(q p.Point) int {
	for i, v := range c.Verts {
		if v.Dist(geo.FromP(q)) < 1e-6 {
			return i
		}
	}
	return -1
}

func checkJoin(c joinCase, r *fw.Rec) error {
	for i := range c.Verts {
		for j := 0; j < i; j++ {
			if c.Verts[i].Dist(c.Verts[j]) < 1e-3 {
				r.Excluded = "places too close"
				return nil
			}
		}
	}
	in := c.build()
	cnt := map[[2]int]int{}
	bal := map[int]int{}
	for _, pth := range c.Paths {
		for i := 1; i < len(pth); i++ {
			cnt[[2]int{pth[i-1], pth[i]}]++
			bal[pth[i-1]]++
			bal[pth[i]]--
		}
	}
	out := p.JoinPaths3(in)
	type open struct{ s, e int }
	var opens []open
	for k, pth := range out {
		if len(pth.Points) < 2 {
			return errf("path %d has %d points", k, len(pth.Points))
		}
		prev := -1
		for i, q := range pth.Points {
			id := c.id(q)
			if id < 0 {
				return errf("path %d visits %v, which is no given point", k, q)
			}
			if i > 0 {
				cnt[[2]int{prev, id}]--
			}
			prev = id
		}
		s, e := c.id(pth.Points[0]), c.id(pth.Points[len(pth.Points)-1])
		if s != e {
			opens = append(opens, open{s, e})
		}
	}
	var keys [][2]int
	for k, n := range cnt {
		if n != 0 {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i][0] < keys[j][0] || (keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1])
	})
	for _, k := range keys {
		if cnt[k] > 0 {
			return errf("segment %v to %v is traversed %d times less often than given", c.Verts[k[0]], c.Verts[k[1]], cnt[k])
		}
		return errf("segment %v to %v is traversed %d times more often than given", c.Verts[k[0]], c.Verts[k[1]], -cnt[k])
	}
	for i, a := range opens {
		for j, b := range opens {
			if i != j && a.e == b.s {
				return errf("%d open paths remain, and one ends at %v where another starts", len(opens), c.Verts[a.e])
			}
		}
	}
	balanced := true
	for _, b := range bal {
		if b != 0 {
			balanced = false
		}
	}
	if balanced && len(opens) > 0 {
		return errf("closed loops come back as %d open paths", len(opens))
	}
	r.Tag("balanced=%v jitter=%v", balanced, c.Jit > 0)
	if len(out) < len(c.Paths) {
		r.NT()
	}
	r.Count("segments", len(c.Paths))
	return nil
}

// ---- C09 merging collinear lines ----

type minCase struct {
	Corners []geo.V     `json:"corners"`
	Cuts    [][]float64 `json:"cuts"` // per side: parameters of extra points
	Closed  bool        `json:"closed"`
	Start   int         `json:"start"` // closed: index of the start point
}

func genMin(t *rapid.T) minCase {
	var c minCase
	n := gen.I(t, "n", 1, 9)
	c.Closed = gen.P(t, "closed", 0.6)
	if c.Closed && n < 2 {
		n = 3
	}
	planar := gen.P(t, "planar", 0.6)
	f := geo.NewFrame(drawPoint(t, "o", 100), gen.DrawDir(t, "n"))
	grid := gen.P(t, "grid", 0.4)
	s := gen.Log(t, "s", 0.05, 300)
	for i := 0; i < n+1; i++ {
		var v geo.V
		if grid {
			v = geo.V{X: float64(gen.I(t, "x", 0, 6)), Y: float64(gen.I(t, "y", 0, 6))}
			if !planar {
				v.Z = float64(gen.I(t, "z", 0, 2))
			}
		} else {
			q := geo.P2{X: s * gen.F(t, "x", -1, 1), Y: s * gen.F(t, "y", -1, 1)}
			v = f.From(q)
			if !planar {
				v = v.Add(f.N.Mul(s * gen.F(t, "z", -1, 1)))
			}
		}
		c.Corners = append(c.Corners, v)
		var cuts []float64
		if gen.P(t, "cut?", 0.6) {
			k := gen.I(t, "k", 1, 4)
			for j := 0; j < k; j++ {
				cuts = append(cuts, float64(j+1)/float64(k+1)+gen.F(t, "j", -0.05, 0.05))
			}
		}
		c.Cuts = append(c.Cuts, cuts)
	}
	if gen.P(t, "spike", 0.15) && n > 2 { // doubling back
		i := gen.I(t, "si", 1, len(c.Corners)-2)
		c.Corners[i+1] = c.Corners[i].Add(c.Corners[i-1].Sub(c.Corners[i]).Mul(gen.F(t, "sk", 0.2, 1.5)))
	}
	c.Start = gen.I(t, "start", 0, 60)
	return c
}

func checkMin(c minCase, r *fw.Rec) error {
	n := len(c.Corners)
	if n < 2 {
		r.Excluded = "no path"
		return nil
	}
	sides := n - 1
	if c.Closed {
		sides = n
	}
	// corners must turn by at least one degree, sides be long enough for the tolerance
	for i := 0; i < sides; i++ {
		d := c.Corners[(i+1)%n].Sub(c.Corners[i])
		if d.Len() < 1e-2*float64(2*len(c.Cuts[i])+2) || d.Len() > 1e3 {
			r.Excluded = "side length"
			return nil
		}
		if i+1 < sides || c.Closed {
			e := c.Corners[(i+2)%n].Sub(c.Corners[(i+1)%n])
			if geo.AngleDeg(d, e) < 1 {
				r.Excluded = "no corner"
				return nil
			}
			if a := geo.AngleDeg(d, e); a > 179 && a < 179.9999999 {
				r.Excluded = "nearly doubling back"
				return nil
			} else if a >= 179.9999999 {
				r.Tag("doubles back")
			}
		}
	}
	var pts []geo.V
	corner := map[int]bool{}
	for i := 0; i < sides; i++ {
		corner[len(pts)] = true
		pts = append(pts, c.Corners[i])
		cuts := append([]float64{}, c.Cuts[i]...)
		sort.Float64s(cuts)
		for _, k := range cuts {
			pts = append(pts, c.Corners[i].Add(c.Corners[(i+1)%n].Sub(c.Corners[i]).Mul(k)))
		}
	}
	var want []geo.V
	var in []geo.V
	if c.Closed {
		s := c.Start % len(pts)
		for i := 0; i <= len(pts); i++ {
			in = append(in, pts[(s+i)%len(pts)])
		}
		for i := 0; i < len(pts); i++ {
			if corner[(s+i)%len(pts)] {
				want = append(want, pts[(s+i)%len(pts)])
			}
		}
	} else {
		corner[len(pts)] = true
		pts = append(pts, c.Corners[n-1])
		in = pts
		want = c.Corners
		if in[0].Dist(in[len(in)-1]) < 1e-3 {
			r.Excluded = "open path that meets itself at its ends"
			return nil
		}
	}
	if len(in) < 3 {
		r.Excluded = "no inner point"
		return nil
	}
	src := pathOf(in)
	keep := append([]p.Point{}, src.Points...)
	got := vsOf(src.MinimizeLines())
	for i := range keep {
		if src.Points[i] != keep[i] {
			return errf("the input path changed at %d", i)
		}
	}
	tol := 1e-9 * (1 + absMax(in))
	if c.Closed {
		if got[0].Dist(got[len(got)-1]) > 1e-6 {
			return errf("a closed path is open afterwards: %v", got)
		}
		got = got[:len(got)-1]
		if len(got) != len(want) {
			return errf("closed path %v with %d corners becomes %d points %v", in, len(want), len(got), got)
		}
		ok := false
		for s := range want {
			same := true
			for i := range got {
				if got[i].Dist(want[(s+i)%len(want)]) > tol {
					same = false
					break
				}
			}
			ok = ok || same
		}
		if !ok {
			return errf("closed path %v: corners %v expected in this order, got %v", in, want, got)
		}
	} else {
		if len(got) != len(want) {
			return errf("open path %v with %d corners and ends becomes %v", in, len(want), got)
		}
		for i := range got {
			if got[i].Dist(want[i]) > tol {
				return errf("open path %v: point %d is %v, want %v", in, i, got[i], want[i])
			}
		}
	}
	r.Tag("closed=%v", c.Closed)
	if len(got) < len(pts) {
		r.NT()
		r.Tag("dropped")
	}
	return nil
}

type curveCase struct {
	R, Step float64
	N       int
	Closed  bool
	Noise   []float64
	F       geo.V
	O       geo.V
}

func genCurve(t *rapid.T) curveCase {
	var c curveCase
	c.N = gen.I(t, "n", 3, 60)
	c.R = gen.Log(t, "r", 0.05, 300)
	c.Closed = gen.P(t, "closed", 0.5)
	if !c.Closed {
		c.Step = gen.Log(t, "step", 1e-2, 1) / c.R
		if c.Step > 1 {
			c.Step = 1
		}
	}
	for i := gen.I(t, "nn", 0, 5); i > 0; i-- {
		c.Noise = append(c.Noise, gen.Pick(t, "noise", 0, 1e-8, 1e-6, 1e-4, 1e-3)*gen.F(t, "nf", -1, 1))
	}
	c.F = gen.DrawDir(t, "f")
	c.O = drawPoint(t, "o", 100)
	return c
}

// gentle curves: only the stated tolerances are judged
func checkCurve(c curveCase, r *fw.Rec) error {
	step := c.Step
	if c.Closed {
		step = 2 * math.Pi / float64(c.N)
	}
	f := geo.NewFrame(c.O, c.F)
	var in []geo.V
	for i := 0; i < c.N; i++ {
		rr := c.R
		if len(c.Noise) > 0 {
			rr += c.Noise[i%len(c.Noise)]
		}
		a := float64(i) * step
		in = append(in, f.From(geo.P2{X: rr * math.Cos(a), Y: rr * math.Sin(a)}))
	}
	if c.Closed {
		in = append(in, in[0])
	}
	for i := 1; i < len(in); i++ {
		if in[i].Dist(in[i-1]) < 1e-2 {
			r.Excluded = "short segments"
			return nil
		}
	}
	got := vsOf(pathOf(in).MinimizeLines())
	if len(got) < 2 {
		return errf("%d points became %d", len(in), len(got))
	}
	dropped := len(in) - len(got)
	r.Tag("dropped " + bktN(dropped))
	if dropped > 0 {
		r.NT()
	}
	lenOf := func(vs []geo.V) float64 {
		s := 0.0
		for i := 1; i < len(vs); i++ {
			s += vs[i].Dist(vs[i-1])
		}
		return s
	}
	areaOf := func(vs []geo.V) geo.V {
		s := geo.V{}
		for i := range vs {
			s = s.Add(vs[i].Sub(vs[0]).Cross(vs[(i+1)%len(vs)].Sub(vs[0])))
		}
		return s.Mul(0.5)
	}
	S := 1 + absMax(in)
	if d := math.Abs(lenOf(in) - lenOf(got)); d > 5e-7*float64(dropped)+1e-11*S {
		return errf("dropping %d points changes the length by %g", dropped, d)
	}
	if d := areaOf(in).Dist(areaOf(got)); d > 5.1e-7*float64(dropped)+1e-12*S*S {
		return errf("dropping %d points changes the area by %g", dropped, d)
	}
	if !c.Closed && (got[0] != in[0] || got[len(got)-1] != in[len(in)-1]) {
		return errf("the ends of an open path moved")
	}
	if c.Closed && got[0].Dist(got[len(got)-1]) > 1e-6 {
		return errf("a closed path is open afterwards")
	}
	// kept points are given points in order (cyclically)
	j := 0
	for _, q := range got {
		for in[j%len(in)] != q {
			j++
			if j > 2*len(in) {
				return errf("the kept points are not points of the path in order")
			}
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C07", Subs: []*fw.Sub{
		fw.S("grid", 60000, genGridSection, checkGridSection),
		fw.S("any", 30000, genAnySection, checkAnySection),
	}})
	fw.Register(&fw.Prop{ID: "C08", Subs: []*fw.Sub{fw.S("join", 30000, genJoin, checkJoin)}})
	fw.Register(&fw.Prop{ID: "C09", Subs: []*fw.Sub{
		fw.S("corners", 30000, genMin, checkMin),
		fw.S("curves", 10000, genCurve, checkCurve),
	}})
}
