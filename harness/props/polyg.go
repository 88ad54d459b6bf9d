package props

import (
	"math"

	p "github.com/l1va/goosli/primitives"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// Poly is a simple polygon placed somewhere.
type Poly struct {
	Shape gen.Shape `json:"shape"`
	Scale float64   `json:"scale"`
	Turn  float64   `json:"turn"`
	At    geo.P2    `json:"at"`
	Start int       `json:"start"`
	Rev   bool      `json:"rev"`
	Split int       `json:"split,omitempty"` // extra points on edges
}

func drawPoly(t *rapid.T, l string, grid bool) Poly {
	q := Poly{Shape: gen.DrawShape(t, l, grid), Scale: 1}
	if !grid {
		if gen.P(t, l+"sc?", 0.4) {
			q.Scale = gen.Log(t, l+"sc", 0.02, 20)
		}
		if gen.P(t, l+"turn?", 0.6) {
			q.Turn = gen.F(t, l+"turn", 0, 360)
		}
		q.At = geo.P2{X: gen.F(t, l+"x", -100, 100), Y: gen.F(t, l+"y", -100, 100)}
	} else {
		q.Turn = 0
		q.At = geo.P2{X: gen.Grid(t, l+"x", -50, 50, 0.5), Y: gen.Grid(t, l+"y", -50, 50, 0.5)}
	}
	q.Start = gen.I(t, l+"start", 0, 40)
	q.Rev = rapid.Bool().Draw(t, l+"rev")
	if gen.P(t, l+"split?", 0.3) {
		q.Split = gen.I(t, l+"split", 1, 3)
	}
	return q
}

func (q Poly) Loop() geo.Loop {
	b := q.Shape.Loop()
	c, s := math.Cos(q.Turn*math.Pi/180), math.Sin(q.Turn*math.Pi/180)
	if q.Turn == 0 {
		c, s = 1, 0
	}
	var l geo.Loop
	for i, v := range b {
		w := b[(i+1)%len(b)]
		for k := 0; k <= q.Split; k++ {
			f := float64(k) / float64(q.Split+1)
			u := v.Add(w.Sub(v).Mul(f)).Mul(q.Scale)
			l = append(l, geo.P2{X: u.X*c - u.Y*s + q.At.X, Y: u.X*s + u.Y*c + q.At.Y})
		}
	}
	n := len(l)
	st := q.Start % n
	l = append(append(geo.Loop{}, l[st:]...), l[:st]...)
	if q.Rev {
		l = l.Reverse()
	}
	return l
}

// simple tells whether the loop keeps clear of itself.
func simple(l geo.Loop) bool { return l.SelfDist() > 1e-3 && math.Abs(l.Area()) > 1e-3 }

func loopPath(f geo.Frame, l geo.Loop) p.Path {
	var r p.Path
	for _, q := range l {
		r.Points = append(r.Points, f.From(q).P())
	}
	r.Points = append(r.Points, r.Points[0])
	return r
}

var xy = geo.Frame{E1: geo.V{X: 1}, E2: geo.V{Y: 1}, N: geo.V{Z: 1}}

func xyAt(z float64) geo.Frame { f := xy; f.O.Z = z; return f }

// ---- C10 ----

type windCase struct {
	Poly Poly    `json:"poly"`
	Z    float64 `json:"z"`
}

func checkWind(c windCase, r *fw.Rec) error {
	l := c.Poly.Loop()
	if !simple(l) {
		r.Excluded = "not simple"
		return nil
	}
	r.NT()
	r.Tag("rev=%v", c.Poly.Rev)
	pth := loopPath(xyAt(c.Z), l)
	cw := l.Area() < 0
	for _, q := range []p.Path{pth, {Points: pth.Points[:len(pth.Points)-1]}} {
		if q.IsWindingCW() != cw || q.IsSolid() != cw || q.IsHole() != !cw {
			return errf("polygon of area %g: clockwise %v, solid %v, hole %v", l.Area(), q.IsWindingCW(), q.IsSolid(), q.IsHole())
		}
		rv := q.Reverse()
		if len(rv.Points) != len(q.Points) {
			return errf("reversing changes the number of points")
		}
		for i := range rv.Points {
			if rv.Points[i] != q.Points[len(q.Points)-1-i] {
				return errf("reversed path differs at %d", i)
			}
		}
		if rv.IsWindingCW() == cw {
			return errf("reversed polygon has the same winding")
		}
	}
	if !pth.IsClosed() {
		return errf("closed path is reported open")
	}
	open := p.Path{Points: append([]p.Point{}, pth.Points[:len(pth.Points)-1]...)}
	if open.IsClosed() {
		return errf("open path is reported closed")
	}
	n := len(open.Points)
	for _, q := range []p.Path{pth, open} {
		before := append([]p.Point{}, q.Points...)
		cl := q.Close()
		if !cl.IsClosed() || len(cl.Points) != n+1 || cl.Points[n] != cl.Points[0] {
			return errf("closing gives %d points for %d corners", len(cl.Points), n)
		}
		for i := 0; i < n; i++ {
			if cl.Points[i] != before[i] {
				return errf("closing changes point %d", i)
			}
		}
		if len(q.Points) != len(before) {
			return errf("closing changes its receiver")
		}
	}
	if !pth.Equal(loopPath(xyAt(c.Z), l)) || pth.Equal(open) {
		return errf("path equality")
	}
	return nil
}

type insideCase struct {
	Poly Poly     `json:"poly"`
	N    geo.V    `json:"n"` // normal of the plane
	O    geo.V    `json:"o"`
	Q    []geo.P2 `json:"q"` // fractions of the bounding box, or aligned with vertices
	Al   []int    `json:"al"`
}

func genInside(t *rapid.T) insideCase {
	var c insideCase
	grid := gen.P(t, "grid", 0.5)
	c.Poly = drawPoly(t, "poly", grid)
	if gen.P(t, "tilted", 0.4) {
		c.N = gen.DrawDir(t, "n")
		c.O = drawPoint(t, "o", 50)
	} else {
		c.N = geo.V{Z: 1}
		c.O = geo.V{Z: gen.Nice(t, "z", -5, 100, 0.5)}
	}
	for i := gen.I(t, "nq", 1, 8); i > 0; i-- {
		c.Q = append(c.Q, geo.P2{X: gen.F(t, "qx", -0.1, 1.1), Y: gen.F(t, "qy", -0.1, 1.1)})
		c.Al = append(c.Al, gen.I(t, "al", 0, 5), gen.I(t, "ai", 0, 30), gen.I(t, "aj", 0, 30))
	}
	return c
}

func (c insideCase) frame() geo.Frame {
	if c.N == (geo.V{Z: 1}) {
		return xyAt(c.O.Z)
	}
	return geo.NewFrame(c.O, c.N)
}

func box2(l geo.Loop) (lo, hi geo.P2) {
	lo, hi = l[0], l[0]
	for _, q := range l {
		lo = geo.P2{X: math.Min(lo.X, q.X), Y: math.Min(lo.Y, q.Y)}
		hi = geo.P2{X: math.Max(hi.X, q.X), Y: math.Max(hi.Y, q.Y)}
	}
	return
}

func checkInside(c insideCase, r *fw.Rec) error {
	l := c.Poly.Loop()
	if !simple(l) {
		r.Excluded = "not simple"
		return nil
	}
	f := c.frame()
	pth := loopPath(f, l)
	lo, hi := box2(l)
	n := len(l)
	for i, u := range c.Q {
		q := geo.P2{X: lo.X + (hi.X-lo.X)*u.X, Y: lo.Y + (hi.Y-lo.Y)*u.Y}
		switch c.Al[3*i] {
		case 1:
			q.X = l[c.Al[3*i+1]%n].X
		case 2:
			q.Y = l[c.Al[3*i+1]%n].Y
		case 3:
			q.X = l[c.Al[3*i+1]%n].X
			q.Y = l[c.Al[3*i+2]%n].Y
		case 4: // on the line of an edge
			a, b := l[c.Al[3*i+1]%n], l[(c.Al[3*i+1]+1)%n]
			q = a.Add(b.Sub(a).Mul(u.X*4 - 2))
		case 5: // on a line parallel to the first edge through a vertex
			q = l[c.Al[3*i+1]%n].Add(l[1].Sub(l[0]).Mul(u.X*4 - 2))
		}
		if l.Dist(q) < 1e-3 {
			r.Tag("near the border")
			continue
		}
		want := l.Winding(q) != 0
		if got := f.From(q).P().Inside(pth); got != want {
			return errf("point %v in polygon %v (plane normal %v): %v, want %v", f.From(q), vsOf(pth), f.N, got, want)
		}
		r.Tag("inside=%v", want)
		r.Tag("aligned %d", c.Al[3*i])
		if want {
			r.NT()
		}
	}
	return nil
}

type pairCase struct {
	A, B Poly
	Rel  string
	K    float64
	D    geo.P2
	Z    float64
}

func genPair(t *rapid.T) pairCase {
	var c pairCase
	grid := gen.P(t, "grid", 0.5)
	c.A = drawPoly(t, "a", grid)
	c.Rel = gen.Pick(t, "rel", "shrunk", "moved", "other", "touch")
	switch c.Rel {
	case "shrunk", "touch":
		c.B = c.A
		c.B.Start = gen.I(t, "bs", 0, 40)
		c.B.Rev = rapid.Bool().Draw(t, "brev")
		c.K = gen.Nice(t, "k", 0.1, 1, 0.25)
	case "moved":
		c.B = c.A
		c.B.Rev = rapid.Bool().Draw(t, "brev")
		c.K = 1
		c.D = geo.P2{X: gen.Nice(t, "dx", -40, 40, 0.5), Y: gen.Nice(t, "dy", -40, 40, 0.5)}
	case "other":
		c.B = drawPoly(t, "b", grid)
		c.B.At = c.A.At
		c.K = gen.Nice(t, "k", 0.125, 1, 0.125)
		c.D = geo.P2{X: gen.Nice(t, "dx", -20, 20, 0.5), Y: gen.Nice(t, "dy", -20, 20, 0.5)}
	}
	c.Z = gen.Nice(t, "z", -5, 100, 0.5)
	return c
}

func (c pairCase) loops() (geo.Loop, geo.Loop) {
	a, b := c.A.Loop(), c.B.Loop()
	var o geo.P2
	if c.Rel == "shrunk" {
		// about an interior point: the centroid when it is inside
		o = a.Centroid()
	} else if c.Rel == "touch" {
		o = a[0]
	} else {
		o = b[0]
	}
	for i := range b {
		b[i] = o.Add(b[i].Sub(o).Mul(c.K)).Add(c.D)
	}
	return a, b
}

func checkPair(c pairCase, r *fw.Rec) error {
	a, b := c.loops()
	if !simple(a) || !simple(b) {
		r.Excluded = "not simple"
		return nil
	}
	d := geo.LoopDist(a, b)
	inside := false
	switch {
	case d == 0:
		r.Tag("crossing or touching")
	case d < 1e-3:
		r.Excluded = "nearly touching"
		return nil
	default:
		inside = a.Winding(b[0]) != 0
		r.Tag("clear, inside=%v", inside)
	}
	// a vertex of one on an edge of the other is within rounding: only exact contact counts
	f := xyAt(c.Z)
	pa, pb := loopPath(f, a), loopPath(f, b)
	if got := pb.IsInside(pa); got != inside {
		return errf("polygon %v inside %v: %v, want %v (distance %g)", vsOf(pb), vsOf(pa), got, inside, d)
	}
	r.NT()
	return nil
}

// ---- C11 ----

type centroidCase struct {
	Poly Poly  `json:"poly"`
	Dir  geo.V `json:"dir"`
	O    geo.V `json:"o"`
	Spin float64
	Mv   geo.V   `json:"mv"`
	Rot  gen.Rot `json:"rot"`
}

func genCentroid(t *rapid.T) centroidCase {
	var c centroidCase
	c.Poly = drawPoly(t, "poly", gen.P(t, "grid", 0.3))
	c.Dir = gen.DrawDir(t, "dir")
	c.O = drawPoint(t, "o", 100)
	c.Spin = gen.Nice(t, "spin", 0, 360, 45)
	c.Mv = drawPoint(t, "mv", 100)
	c.Rot = gen.Rot{Axis: gen.DrawDir(t, "ax"), Deg: drawAngle(t, "deg")}
	return c
}

func checkCentroid(c centroidCase, r *fw.Rec) error {
	l := c.Poly.Loop()
	if !simple(l) {
		r.Excluded = "not simple"
		return nil
	}
	f := geo.NewFrame(c.O, c.Dir)
	if c.Dir == (geo.V{Z: 1}) {
		f = xyAt(c.O.Z)
	}
	f.E1, f.E2 = geo.Rot(f.E1, f.N, c.Spin), geo.Rot(f.E2, f.N, c.Spin)
	one := func(f geo.Frame) error {
		pth := loopPath(f, l)
		S := absMax(vsOf(pth))
		if math.Abs(l.Area()) < 0.01*S/100 {
			r.Excluded = "area"
			return nil
		}
		// coordinate planes: each projection is either null or clearly not
		for _, q := range []float64{f.N.X, f.N.Y, f.N.Z} {
			if a := math.Abs(q * l.Area()); a > 1e-9 && math.Abs(q) < 1e-3 || a > 1e-9 && a < 1e-4 {
				r.Tag("nearly in a coordinate plane")
				return nil
			}
		}
		got := geo.FromP(p.FindCentroid(pth))
		want := f.From(l.Centroid())
		tol := 1e-6 * (1 + S)
		if !(got.Dist(want) <= tol) {
			return errf("centre of %v is %v, want %v", vsOf(pth), got, want)
		}
		r.NT()
		r.Tag("plane normal %s", axisTag(f.N))
		return nil
	}
	if err := one(f); err != nil {
		return err
	}
	g := f
	g.O = g.O.Add(c.Mv)
	if err := one(g); err != nil {
		return err
	}
	g = geo.Frame{O: geo.Rot(f.O, c.Rot.Axis, c.Rot.Deg), E1: geo.Rot(f.E1, c.Rot.Axis, c.Rot.Deg),
		E2: geo.Rot(f.E2, c.Rot.Axis, c.Rot.Deg), N: geo.Rot(f.N, c.Rot.Axis, c.Rot.Deg)}
	return one(g)
}

func axisTag(n geo.V) string {
	z := 0
	for _, q := range []float64{n.X, n.Y, n.Z} {
		if math.Abs(q) < 1e-9 {
			z++
		}
	}
	return []string{"general", "parallel to an axis", "a coordinate plane", ""}[z]
}

func init() {
	fw.Register(&fw.Prop{ID: "C10", Subs: []*fw.Sub{
		fw.S("winding", 10000, func(t *rapid.T) windCase {
			return windCase{drawPoly(t, "poly", gen.P(t, "grid", 0.3)), gen.Nice(t, "z", -10, 100, 1)}
		}, checkWind),
		fw.S("point", 20000, genInside, checkInside),
		fw.S("polygon", 20000, genPair, checkPair),
	}})
	fw.Register(&fw.Prop{ID: "C11", Subs: []*fw.Sub{fw.S("centroid", 20000, genCentroid, checkCentroid)}})
}
