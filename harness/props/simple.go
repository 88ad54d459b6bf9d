package props

import (
	"math"
	"sort"

	"github.com/l1va/goosli/helpers"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- C22 SimplifyLine ----

type simplCase struct {
	Pts []geo.V `json:"pts"`
	Eps float64 `json:"eps"`
}

func genSimpl(t *rapid.T) simplCase {
	var c simplCase
	n := gen.I(t, "n", 1, 40)
	kind := gen.Pick(t, "kind", "any", "walk", "smooth", "collinear", "grid")
	cur := geo.V{}
	dir := gen.DrawDir(t, "dir").Unit()
	for i := 0; i < n; i++ {
		switch kind {
		case "any":
			cur = drawPoint(t, "p", 20)
		case "grid":
			cur = geo.V{X: float64(gen.I(t, "x", 0, 4)), Y: float64(gen.I(t, "y", 0, 4)), Z: float64(gen.I(t, "z", 0, 1))}
		case "walk":
			cur = cur.Add(geo.V{X: gen.F(t, "dx", -1, 3), Y: gen.F(t, "dy", -1, 1), Z: gen.F(t, "dz", -1, 1)})
		case "smooth":
			a := float64(i) * 0.2
			cur = geo.V{X: 10 * math.Cos(a), Y: 10 * math.Sin(a), Z: a + gen.F(t, "n", -0.01, 0.01)}
		case "collinear":
			cur = cur.Add(dir.Mul(gen.F(t, "s", -1, 3)))
			if gen.P(t, "off", 0.2) {
				cur = cur.Add(geo.V{X: gen.F(t, "o", -1, 1)})
			}
		}
		if i > 0 && gen.P(t, "rep", 0.08) {
			c.Pts = append(c.Pts, c.Pts[gen.I(t, "ri", 0, i-1)])
		} else {
			c.Pts = append(c.Pts, cur)
		}
	}
	if n > 2 && gen.P(t, "close", 0.2) {
		c.Pts[n-1] = c.Pts[0]
	}
	if gen.P(t, "zero", 0.15) {
		c.Eps = 0
	} else {
		c.Eps = gen.Log(t, "eps", 1e-4, 20)
	}
	return c
}

func lineDist(q, a, b geo.V) float64 {
	d := b.Sub(a)
	if d.Len() == 0 {
		return q.Dist(a)
	}
	return q.Sub(a).Cross(d.Unit()).Len()
}

func checkSimpl(c simplCase, r *fw.Rec) error {
	in := pathOf(c.Pts).Points
	keep := append([]p.Point{}, in...)
	full := in[:len(in):len(in)]
	got := helpers.SimplifyLine(full, c.Eps)
	for i := range keep {
		if in[i] != keep[i] {
			return errf("the input changed at %d", i)
		}
	}
	n := len(in)
	if n == 1 {
		if len(got) < 1 || got[0] != in[0] || got[len(got)-1] != in[0] {
			return errf("one point becomes %v", got)
		}
		return nil
	}
	if len(got) < 2 || got[0] != in[0] || got[len(got)-1] != in[n-1] {
		return errf("the ends %v %v are not kept: %v", in[0], in[n-1], got)
	}
	// match as a subsequence: there may be repeated points, so search for an
	// assignment in which every dropped point is within eps of its line
	tol := c.Eps + 1e-9*(1+absMax(c.Pts))
	m := len(got)
	// reach[i] = set of positions in `in` at which got[i] may sit
	reach := map[int]bool{0: true}
	for k := 1; k < m; k++ {
		next := map[int]bool{}
		a, b := geo.FromP(got[k-1]), geo.FromP(got[k])
		for i := range reach {
			for j := i + 1; j < n; j++ {
				if in[j] == got[k] {
					next[j] = true
				}
				if lineDist(c.Pts[j], a, b) > tol {
					break
				}
			}
		}
		if len(next) == 0 {
			return errf("kept point %d (%v) is not reached: either it is not the next of the input, or a point farther than %g from the line %v %v was dropped", k, got[k], c.Eps, a, b)
		}
		reach = next
	}
	if !reach[n-1] {
		return errf("the kept points do not cover the whole line: %v of %v", got, in)
	}
	// minimality: a line all of whose points lie within eps of the chord is reduced to its ends
	far := 0.0
	for _, q := range c.Pts {
		far = math.Max(far, lineDist(q, c.Pts[0], c.Pts[n-1]))
	}
	if far <= c.Eps-1e-9*(1+absMax(c.Pts)) && m != 2 {
		return errf("all points are within %g of the chord but %d are kept", c.Eps, m)
	}
	r.Tag("dropped=%v kept=%v", bktN(n-m), bktN(m))
	if m > 2 && m < n {
		r.NT()
	}
	return nil
}

func bktN(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 3:
		return "1-2"
	case n < 10:
		return "3-9"
	case n < 100:
		return "10-99"
	}
	return "100+"
}

func absMax(vs []geo.V) float64 {
	m := 0.0
	for _, v := range vs {
		m = math.Max(m, v.MaxAbs())
	}
	return m
}

// ---- C23 colouring ----

type colorCase struct {
	Mesh  *gen.MeshSpec `json:"mesh,omitempty"`
	Tris  []geo.Tri     `json:"tris,omitempty"`
	Angle float64       `json:"angle"`
	V     geo.V         `json:"v"`
	Scale float64       `json:"scale"`
	Rot   gen.Rot       `json:"rot"`
}

func genColor(t *rapid.T) colorCase {
	var c colorCase
	c.V = gen.DrawDir(t, "v")
	if gen.P(t, "vl?", 0.5) {
		c.V = c.V.Mul(gen.Log(t, "vl", 1e-3, 1e3))
	}
	if gen.P(t, "mesh", 0.5) {
		m := gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 2, Rotate: true, Grid: true, Shift: 30, Cavity: true})
		c.Mesh = &m
	} else {
		for i := gen.I(t, "n", 0, 12); i > 0; i-- {
			// a triangle facing a chosen direction
			var n geo.V
			switch gen.I(t, "face", 0, 3) {
			case 0:
				n = c.V
			case 1:
				n = c.V.Mul(-1)
			case 2: // tilted by a chosen angle from straight down
				ax := gen.DrawDir(t, "ax")
				if ax.Unit().Cross(c.V.Unit()).Len() < 0.05 {
					ax = geo.V{X: c.V.Y + 1, Y: c.V.Z, Z: c.V.X}
				}
				n = geo.Rot(c.V.Mul(-1), c.V.Cross(ax), gen.Nice(t, "tilt", 0, 180, 5))
			default:
				n = gen.DrawDir(t, "n")
			}
			f := geo.NewFrame(drawPoint(t, "o", 50), n)
			s := gen.Log(t, "s", 1e-2, 50)
			a := gen.F(t, "a", 0, 6.28)
			var tr geo.Tri
			for k := 0; k < 3; k++ {
				b := a + float64(k)*gen.F(t, "db", 1.2, 2.1)
				tr[k] = f.From(geo.P2{X: s * math.Cos(b), Y: s * math.Sin(b)})
			}
			c.Tris = append(c.Tris, tr)
		}
	}
	c.Angle = gen.Nice(t, "angle", 0, 90, 5)
	c.Scale = gen.Log(t, "scale", 0.01, 100)
	c.Rot = gen.Rot{Axis: gen.DrawDir(t, "rax"), Deg: drawAngle(t, "rd")}
	return c
}

func checkColor(c colorCase, r *fw.Rec) error {
	g := geo.Mesh(c.Tris)
	if c.Mesh != nil {
		g = c.Mesh.Build()
	}
	m := g.Goosli()
	before := meshCopy(m)
	got := helpers.ColorizeTriangles(*m, c.Angle, c.V.Vec())
	if len(got) != len(g) {
		return errf("%d flags for %d triangles", len(got), len(g))
	}
	filt := helpers.FilterTrianglesByColor(*m, c.Angle, c.V.Vec())
	if !sameTriangles(before, m.Triangles) {
		return errf("the mesh changed")
	}
	var want []p.Triangle
	marked := 0
	judged := make([]bool, len(g))
	for i, t := range g {
		if got[i] {
			want = append(want, m.Triangles[i])
			marked++
		}
		n := t.N()
		l := math.Max(t[0].Dist(t[1]), math.Max(t[1].Dist(t[2]), t[2].Dist(t[0])))
		if n.Len() < 1e-5*l*l || n.Len() < 1e-7*absMax(t[:]) || n.Len() == 0 {
			continue
		}
		dev := geo.AngleDeg(n, c.V.Mul(-1))
		lim := 90 - c.Angle
		if math.Abs(dev-lim) < 1e-3 {
			r.Tag("at the limit")
			continue
		}
		judged[i] = true
		if got[i] != (dev < lim) {
			return errf("triangle %d facing %v, %.6g degrees from straight down (vector %v, limit %.6g): marked %v", i, n, dev, c.V, lim, got[i])
		}
		if dev < 1e-6 {
			r.Tag("straight down")
		}
		if dev > 180-1e-6 {
			r.Tag("straight up")
		}
	}
	if !sameTriangles(want, filt) {
		return errf("filtering gives %d triangles, %d are marked", len(filt), marked)
	}
	// scaled, and jointly rotated
	sm := g.Map(func(v geo.V) geo.V { return v.Mul(c.Scale) })
	for i, f := range helpers.ColorizeTriangles(*sm.Goosli(), c.Angle, c.V.Vec()) {
		if judged[i] && f != got[i] {
			return errf("triangle %d changes colour when the mesh is scaled by %g", i, c.Scale)
		}
	}
	rot := g.Map(func(v geo.V) geo.V { return geo.Rot(v, c.Rot.Axis, c.Rot.Deg) })
	for i, f := range helpers.ColorizeTriangles(*rot.Goosli(), c.Angle, geo.Rot(c.V, c.Rot.Axis, c.Rot.Deg).Vec()) {
		if judged[i] && f != got[i] {
			return errf("triangle %d changes colour when mesh and vector are rotated together", i)
		}
	}
	r.Count("triangles", len(g))
	r.Count("marked", marked)
	if marked > 0 && marked < len(g) {
		r.NT()
	}
	return nil
}

// ---- C33 middle on the ring ----

type ringCase struct {
	Ring  int   `json:"ring"`
	Start int   `json:"start"` // quarter units: where the arc starts
	Offs  []int `json:"offs"`  // quarter units, ascending, within less than half the ring
	Turn  int   `json:"turn"`
}

func genRing(t *rapid.T) ringCase {
	var c ringCase
	c.Ring = gen.Pick(t, "ringk", 360, 360, gen.I(t, "ring", 3, 1000))
	q := gen.Pick(t, "unit", 4, 4*c.Ring/36+1, 1)
	c.Start = gen.I(t, "start", 0, (4*c.Ring-1)/q) * q
	half := (2*c.Ring - 1) / q
	n := gen.I(t, "n", 1, 8)
	for i := 0; i < n; i++ {
		c.Offs = append(c.Offs, gen.I(t, "off", 0, half)*q)
	}
	sort.Ints(c.Offs)
	c.Turn = gen.I(t, "turn", 0, c.Ring-1)
	return c
}

func checkRing(c ringCase, r *fw.Rec) error {
	if c.Offs[len(c.Offs)-1]-c.Offs[0] >= 2*c.Ring {
		r.Excluded = "half a ring"
		return nil
	}
	n := len(c.Offs)
	full := 4 * c.Ring
	for _, s := range []int{c.Start, (c.Start + 4*c.Turn) % full} {
		var in []float64
		sum := 0
		for _, o := range c.Offs {
			in = append(in, float64((s+o)%full)/4)
			sum += s + o
		}
		sort.Float64s(in)
		want := sum / (4 * n) % c.Ring // mean along the arc, rounded down
		keep := append([]float64{}, in...)
		got := slicers.MiddleOnTheRing(in, c.Ring)
		if got != want {
			return errf("middle of %v on a ring of %d is %d, want %d", keep, c.Ring, got, want)
		}
		if s+c.Offs[0] < full && s+c.Offs[n-1] >= full {
			r.Tag("across zero")
			r.NT()
		} else {
			r.Tag("within")
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C22", Subs: []*fw.Sub{fw.S("line", 40000, genSimpl, checkSimpl)}})
	fw.Register(&fw.Prop{ID: "C23", Subs: []*fw.Sub{fw.S("colour", 10000, genColor, checkColor)}})
	fw.Register(&fw.Prop{ID: "C33", Subs: []*fw.Sub{fw.S("middle", 100000, genRing, checkRing)}})
}
