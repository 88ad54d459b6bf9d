package gen

import (
	"math"

	"pgregory.net/rapid"
	"verif/harness/geo"
)

// Level of a loft: a polygon scaled by R about (X,Y) at height Z.
type Level struct {
	Z float64 `json:"z"`
	X float64 `json:"x,omitempty"`
	Y float64 `json:"y,omitempty"`
	S float64 `json:"s"`
	// individual radii factors (star lofts only)
	R []float64 `json:"r,omitempty"`
}

// Body is one closed surface.
type Body struct {
	Kind   string       `json:"kind"`
	Shape  *Shape       `json:"shape,omitempty"`
	Holes  []HoleSpec   `json:"holes,omitempty"`
	Levels []Level      `json:"levels,omitempty"`
	Inner  float64      `json:"inner,omitempty"` // loft with a hole scaled by this factor
	Prof   [][2]float64 `json:"prof,omitempty"`  // revolve: radius, height
	N      int          `json:"n,omitempty"`
	Bump   []float64    `json:"bump,omitempty"`
	Cells  [][3]int     `json:"cells,omitempty"`
	Unit   float64      `json:"unit,omitempty"`
	Flip   bool         `json:"flip,omitempty"` // cavity
	Scale  float64      `json:"scale,omitempty"`
	At     geo.V        `json:"at"`
}

// HoleSpec is a regular n-gon hole of a prism.
type HoleSpec struct {
	X, Y, R float64
	N       int
}

// Rot is a rotation about an axis.
type Rot struct {
	Axis geo.V   `json:"axis"`
	Deg  float64 `json:"deg"`
}

// MeshSpec describes a closed, outward-oriented mesh.
type MeshSpec struct {
	Bodies  []Body  `json:"bodies"`
	Rots    []Rot   `json:"rots,omitempty"`
	Scale   float64 `json:"scale,omitempty"`
	Shift   geo.V   `json:"shift"`
	Snap    float64 `json:"snap,omitempty"` // round coordinates to multiples of this
	Shuffle uint64  `json:"shuffle,omitempty"`
	F32     bool    `json:"f32,omitempty"`
	OnBed   bool    `json:"onbed,omitempty"`
}

func loftBody(base geo.Loop, b Body) geo.Mesh {
	var m geo.Mesh
	n := len(base)
	ring := func(l Level, f float64) []geo.V {
		r := make([]geo.V, n)
		for i, q := range base {
			k := l.S * f
			if l.R != nil {
				k *= l.R[i%len(l.R)]
			}
			r[i] = geo.V{X: l.X + q.X*k, Y: l.Y + q.Y*k, Z: l.Z}
		}
		return r
	}
	side := func(lo, hi []geo.V, flip bool) {
		for i := 0; i < n; i++ {
			j := (i + 1) % n
			a := geo.Tri{lo[i], lo[j], hi[j]}
			c := geo.Tri{lo[i], hi[j], hi[i]}
			if flip {
				a[1], a[2] = a[2], a[1]
				c[1], c[2] = c[2], c[1]
			}
			m = append(m, a, c)
		}
	}
	L := b.Levels
	for k := 0; k+1 < len(L); k++ {
		side(ring(L[k], 1), ring(L[k+1], 1), false)
		if b.Inner > 0 {
			side(ring(L[k], b.Inner), ring(L[k+1], b.Inner), true)
		}
	}
	first, last := L[0], L[len(L)-1]
	if b.Inner > 0 {
		// the bottom annulus looks down, the top one up
		cap2 := func(in, out []geo.V, up bool) {
			for i := 0; i < n; i++ {
				j := (i + 1) % n
				a := geo.Tri{in[i], out[i], out[j]}
				c := geo.Tri{in[i], out[j], in[j]}
				if !up {
					a[1], a[2] = a[2], a[1]
					c[1], c[2] = c[2], c[1]
				}
				m = append(m, a, c)
			}
		}
		cap2(ring(first, b.Inner), ring(first, 1), false)
		cap2(ring(last, b.Inner), ring(last, 1), true)
	} else {
		tri := func(l Level, up bool) {
			rg := ring(l, 1)
			pl := make(geo.Loop, n)
			for i := range rg {
				pl[i] = geo.P2{X: rg[i].X, Y: rg[i].Y}
			}
			for _, t := range Triangulate(pl, nil) {
				a := geo.Tri{rg[t[0]], rg[t[1]], rg[t[2]]}
				if !up {
					a[1], a[2] = a[2], a[1]
				}
				m = append(m, a)
			}
		}
		tri(first, false)
		tri(last, true)
	}
	return m
}

func prismBody(b Body) geo.Mesh {
	outer := b.Shape.Loop()
	var holes []geo.Loop
	for _, h := range b.Holes {
		l := geo.Loop{}
		for i := 0; i < h.N; i++ {
			a := -2 * math.Pi * (float64(i) + 0.25) / float64(h.N)
			l = append(l, geo.P2{X: h.X + h.R*math.Cos(a), Y: h.Y + h.R*math.Sin(a)})
		}
		holes = append(holes, l)
	}
	tr := Triangulate(outer, holes)
	if tr == nil {
		return nil
	}
	all := append(geo.Loop{}, outer...)
	loops := [][]int{}
	id := 0
	add := func(l geo.Loop) {
		x := []int{}
		for range l {
			x = append(x, id)
			id++
		}
		loops = append(loops, x)
	}
	add(outer)
	for _, h := range holes {
		all = append(all, h...)
		add(h)
	}
	var m geo.Mesh
	at := func(i int, l Level) geo.V {
		return geo.V{X: l.X + all[i].X*l.S, Y: l.Y + all[i].Y*l.S, Z: l.Z}
	}
	L := b.Levels
	for k := 0; k+1 < len(L); k++ {
		for _, lp := range loops {
			for i := range lp {
				j := (i + 1) % len(lp)
				m = append(m, geo.Tri{at(lp[i], L[k]), at(lp[j], L[k]), at(lp[j], L[k+1])},
					geo.Tri{at(lp[i], L[k]), at(lp[j], L[k+1]), at(lp[i], L[k+1])})
			}
		}
	}
	f, l := L[0], L[len(L)-1]
	for _, t := range tr {
		m = append(m, geo.Tri{at(t[0], f), at(t[2], f), at(t[1], f)}, geo.Tri{at(t[0], l), at(t[1], l), at(t[2], l)})
	}
	return m
}

// revolveBody turns a closed profile (r,z), counter-clockwise in the (r,z) plane, all r>0,
// or with first and last r = 0 (poles).
func revolveBody(b Body) geo.Mesh {
	n := b.N
	at := func(i, k int) geo.V {
		q := b.Prof[i]
		a := 2 * math.Pi * float64(k%n) / float64(n)
		if q[0] == 0 {
			return geo.V{Z: q[1]}
		}
		return geo.V{X: q[0] * math.Cos(a), Y: q[0] * math.Sin(a), Z: q[1]}
	}
	np := len(b.Prof)
	poles := b.Prof[0][0] == 0 && b.Prof[np-1][0] == 0
	last := np
	if poles {
		last = np - 1
	}
	var m geo.Mesh
	for i := 0; i < last; i++ {
		j := (i + 1) % np
		for k := 0; k < n; k++ {
			a, bq, c, d := at(i, k), at(i, k+1), at(j, k+1), at(j, k)
			if a != bq {
				m = append(m, geo.Tri{a, bq, c})
			}
			if c != d {
				m = append(m, geo.Tri{a, c, d})
			}
		}
	}
	return m
}

func voxelBody(b Body) geo.Mesh {
	set := map[[3]int]bool{}
	for _, c := range b.Cells {
		set[c] = true
	}
	u := b.Unit
	var m geo.Mesh
	seen := map[[3]int]bool{}
	for _, c := range b.Cells {
		if seen[c] {
			continue
		}
		seen[c] = true
		at := func(x, y, z int) geo.V {
			return geo.V{X: float64(c[0]+x) * u, Y: float64(c[1]+y) * u, Z: float64(c[2]+z) * u}
		}
		face := func(dx, dy, dz int, a, bq, cc, d geo.V) {
			if set[[3]int{c[0] + dx, c[1] + dy, c[2] + dz}] {
				return
			}
			m = append(m, geo.Tri{a, bq, cc}, geo.Tri{a, cc, d})
		}
		face(0, 0, -1, at(0, 0, 0), at(0, 1, 0), at(1, 1, 0), at(1, 0, 0))
		face(0, 0, 1, at(0, 0, 1), at(1, 0, 1), at(1, 1, 1), at(0, 1, 1))
		face(0, -1, 0, at(0, 0, 0), at(1, 0, 0), at(1, 0, 1), at(0, 0, 1))
		face(0, 1, 0, at(0, 1, 0), at(0, 1, 1), at(1, 1, 1), at(1, 1, 0))
		face(-1, 0, 0, at(0, 0, 0), at(0, 0, 1), at(0, 1, 1), at(0, 1, 0))
		face(1, 0, 0, at(1, 0, 0), at(1, 1, 0), at(1, 1, 1), at(1, 0, 1))
	}
	return m
}

// starBody is a subdivided octahedron with radius 1 + bumps.
func starBody(b Body) geo.Mesh {
	v := []geo.V{{X: 1}, {X: -1}, {Y: 1}, {Y: -1}, {Z: 1}, {Z: -1}}
	m := geo.Mesh{
		{v[0], v[2], v[4]}, {v[2], v[1], v[4]}, {v[1], v[3], v[4]}, {v[3], v[0], v[4]},
		{v[2], v[0], v[5]}, {v[1], v[2], v[5]}, {v[3], v[1], v[5]}, {v[0], v[3], v[5]},
	}
	for k := 0; k < b.N; k++ {
		var n geo.Mesh
		for _, t := range m {
			a, bb, c := t[0].Add(t[1]).Mul(0.5), t[1].Add(t[2]).Mul(0.5), t[2].Add(t[0]).Mul(0.5)
			n = append(n, geo.Tri{t[0], a, c}, geo.Tri{a, t[1], bb}, geo.Tri{c, bb, t[2]}, geo.Tri{a, bb, c})
		}
		m = n
	}
	return m.Map(func(q geo.V) geo.V {
		u := q.Unit()
		r := 1.0
		for i := 0; i+3 < len(b.Bump); i += 4 {
			d := geo.V{X: b.Bump[i], Y: b.Bump[i+1], Z: b.Bump[i+2]}
			r += b.Bump[i+3] * math.Sin(3*u.Dot(d))
		}
		return u.Mul(r)
	})
}

// Mesh builds the body.
func (b Body) Mesh() geo.Mesh {
	var m geo.Mesh
	switch b.Kind {
	case "loft":
		m = loftBody(b.Shape.Loop(), b)
	case "prism":
		m = prismBody(b)
	case "revolve":
		m = revolveBody(b)
	case "star":
		m = starBody(b)
	case "voxel":
		m = voxelBody(b)
	default:
		panic("body " + b.Kind)
	}
	s := b.Scale
	if s == 0 {
		s = 1
	}
	m = m.Map(func(v geo.V) geo.V { return v.Mul(s).Add(b.At) })
	if b.Flip {
		m = m.Flip()
	}
	return m
}

// Build makes the mesh of the spec.
func (s MeshSpec) Build() geo.Mesh {
	var m geo.Mesh
	for _, b := range s.Bodies {
		m = append(m, b.Mesh()...)
	}
	k := s.Scale
	if k == 0 {
		k = 1
	}
	m = m.Map(func(v geo.V) geo.V {
		v = v.Mul(k)
		for _, r := range s.Rots {
			v = geo.Rot(v, r.Axis, r.Deg)
		}
		return v
	})
	if s.OnBed {
		lo, _ := m.Range(geo.V{Z: 1})
		if len(m) > 0 {
			m = m.Map(func(v geo.V) geo.V { return geo.V{X: v.X, Y: v.Y, Z: v.Z - lo} })
		}
	}
	m = m.Map(func(v geo.V) geo.V { return v.Add(s.Shift) })
	if s.Snap > 0 {
		r := func(x float64) float64 { return math.Round(x/s.Snap) * s.Snap }
		m = m.Map(func(v geo.V) geo.V { return geo.V{X: r(v.X), Y: r(v.Y), Z: r(v.Z)} })
	}
	if s.F32 {
		r := func(x float64) float64 { return float64(float32(x)) }
		m = m.Map(func(v geo.V) geo.V { return geo.V{X: r(v.X), Y: r(v.Y), Z: r(v.Z)} })
	}
	if s.Shuffle != 0 {
		m = ShuffleMesh(m, s.Shuffle)
	}
	return m
}

// ShuffleMesh reorders triangles and starts them at another vertex.
func ShuffleMesh(m geo.Mesh, seed uint64) geo.Mesh {
	r := NewRng(seed)
	out := make(geo.Mesh, len(m))
	for i, j := range r.Perm(len(m)) {
		t := m[j]
		k := r.N(3)
		out[i] = geo.Tri{t[k], t[(k+1)%3], t[(k+2)%3]}
	}
	return out
}

// Size of generated models.
type MeshOpt struct {
	Kinds   []string
	Bodies  int  // most bodies
	Rotate  bool // allow rotations of the whole
	Upright bool // keep levels horizontal
	Grid    bool // allow grid-aligned models (coordinates multiples of 0.5)
	MaxTri  int  // rough bound on complexity: 0 normal
	Cavity  bool
	OnBed   bool
	Shift   float64
}

// DrawBody draws one body of size about 5..40.
func DrawBody(t *rapid.T, l string, kinds []string, grid bool) Body {
	kind := Pick(t, l+".kind", kinds...)
	num := func(n string, lo, hi float64) float64 {
		if grid {
			return Grid(t, l+n, lo, hi, 0.5)
		}
		return F(t, l+n, lo, hi)
	}
	switch kind {
	case "box":
		w, h, d := num(".w", 2, 30), num(".h", 2, 30), num(".d", 2, 30)
		return Body{Kind: "prism", Shape: &Shape{"rect", []float64{w, h}}, Levels: []Level{{Z: 0, S: 1}, {Z: d, S: 1}}}
	case "prism":
		s := DrawShape(t, l+".sh", grid)
		b := Body{Kind: "prism", Shape: &s}
		z := 0.0
		n := I(t, l+".lev", 1, 3)
		b.Levels = append(b.Levels, Level{Z: 0, S: 1})
		x, y, sc := 0.0, 0.0, 1.0
		for i := 0; i < n; i++ {
			z += num(".dz", 1, 12)
			if !grid {
				if P(t, l+".taper?", 0.4) {
					sc *= F(t, l+".taper", 0.5, 1.6)
				}
				if P(t, l+".shear?", 0.4) {
					x += F(t, l+".sx", -8, 8)
					y += F(t, l+".sy", -8, 8)
				}
			}
			b.Levels = append(b.Levels, Level{Z: z, X: x, Y: y, S: sc})
		}
		// holes where there is room
		if P(t, l+".holes?", 0.5) {
			lp := s.Loop()
			nh := I(t, l+".nh", 1, 3)
			for i := 0; i < nh; i++ {
				r := NewRng(Seed(t, l+".hs"))
				lo, hi := bounds2(lp)
				var best HoleSpec
				for k := 0; k < 30; k++ {
					q := geo.P2{X: lo.X + (hi.X-lo.X)*r.F(), Y: lo.Y + (hi.Y-lo.Y)*r.F()}
					if grid {
						q.X, q.Y = math.Round(q.X*2)/2, math.Round(q.Y*2)/2
					}
					if lp.Winding(q) != 1 {
						continue
					}
					room := lp.Dist(q)
					for _, h := range b.Holes {
						room = math.Min(room, q.Dist(geo.P2{X: h.X, Y: h.Y})-h.R)
					}
					if room*0.7 > best.R {
						best = HoleSpec{q.X, q.Y, room * 0.7, 3 + r.N(6)}
					}
				}
				if best.R > 0.5 {
					b.Holes = append(b.Holes, best)
				}
			}
		}
		return b
	case "loft":
		n := I(t, l+".n", 3, 16)
		var s Shape
		if n == 3 || P(t, l+".reg", 0.4) {
			s = Shape{"ngon", []float64{float64(n), 1}}
		} else {
			var p []float64
			for i := 0; i < n; i++ {
				p = append(p, 1, F(t, l+".da", -0.3, 0.3))
			}
			s = Shape{"star", p}
		}
		b := Body{Kind: "loft", Shape: &s}
		if P(t, l+".hole?", 0.3) {
			b.Inner = F(t, l+".inner", 0.2, 0.85)
		}
		nl := I(t, l+".lev", 1, 5)
		z, x, y, sc := 0.0, 0.0, 0.0, num(".s", 3, 15)
		indiv := P(t, l+".indiv", 0.4)
		lev := func() Level {
			L := Level{Z: z, X: x, Y: y, S: sc}
			if indiv {
				for i := 0; i < n; i++ {
					L.R = append(L.R, F(t, l+".ri", 0.6, 1.3))
				}
			}
			return L
		}
		b.Levels = append(b.Levels, lev())
		for i := 0; i < nl; i++ {
			if P(t, l+".step", 0.15) { // a horizontal step: same centre, all radii scaled
				L := b.Levels[len(b.Levels)-1]
				k := F(t, l+".stepk", 0.5, 1.7)
				if b.Inner > 0 { // the rings below and above must overlap
					k = math.Max(b.Inner*1.1, math.Min(k, 0.9/b.Inner))
				}
				sc *= k
				L.S = sc
				b.Levels = append(b.Levels, L)
			}
			z += num(".dz", 1, 10)
			if P(t, l+".move", 0.5) {
				x += num(".dx", -10, 10)
				y += num(".dy", -10, 10)
			}
			if P(t, l+".grow", 0.6) {
				sc = num(".s", 3, 15)
			}
			b.Levels = append(b.Levels, lev())
		}
		return b
	case "revolve":
		b := Body{Kind: "revolve", N: I(t, l+".n", 3, 40)}
		if P(t, l+".torus", 0.4) {
			R, r := F(t, l+".R", 6, 15), F(t, l+".r2", 1, 5)
			k := I(t, l+".k", 3, 12)
			for i := 0; i < k; i++ {
				a := 2 * math.Pi * (float64(i) + 0.2) / float64(k)
				b.Prof = append(b.Prof, [2]float64{R + r*math.Cos(a), r * math.Sin(a)})
			}
		} else {
			k := I(t, l+".k", 2, 8)
			z := 0.0
			b.Prof = append(b.Prof, [2]float64{0, 0})
			for i := 0; i < k; i++ {
				b.Prof = append(b.Prof, [2]float64{num(".pr", 2, 15), z})
				z += num(".pz", 1, 6)
			}
			// ends with a cone or a flat top
			if P(t, l+".flat", 0.6) {
				z = b.Prof[len(b.Prof)-1][1]
			}
			b.Prof = append(b.Prof, [2]float64{0, z})
		}
		return b
	case "star":
		b := Body{Kind: "star", N: I(t, l+".sub", 0, 3), Scale: num(".s", 3, 20)}
		for i := I(t, l+".bumps", 0, 3); i > 0; i-- {
			b.Bump = append(b.Bump, F(t, l+".b", -1, 1), F(t, l+".b", -1, 1), F(t, l+".b", -1, 1), F(t, l+".bk", -0.2, 0.2))
		}
		return b
	case "voxel":
		n := I(t, l+".cells", 1, 14)
		b := Body{Kind: "voxel", Unit: Pick(t, l+".unit", 2.0, 1.0, 4.0, 2.5, 3.0)}
		walk := P(t, l+".walk", 0.7)
		c := [3]int{}
		b.Cells = append(b.Cells, c)
		for i := 1; i < n; i++ {
			if walk {
				ax := I(t, l+".ax", 0, 2)
				d := 1
				if P(t, l+".neg", 0.4) {
					d = -1
				}
				c[ax] += d
				if P(t, l+".diag", 0.15) {
					c[(ax+1)%3]++
				}
			} else {
				c = [3]int{I(t, l+".cx", 0, 3), I(t, l+".cy", 0, 3), I(t, l+".cz", 0, 3)}
			}
			b.Cells = append(b.Cells, c)
		}
		return b
	}
	panic("kind " + kind)
}

func bounds2(l geo.Loop) (lo, hi geo.P2) {
	lo, hi = l[0], l[0]
	for _, q := range l {
		lo.X, lo.Y = math.Min(lo.X, q.X), math.Min(lo.Y, q.Y)
		hi.X, hi.Y = math.Max(hi.X, q.X), math.Max(hi.Y, q.Y)
	}
	return
}

var AllKinds = []string{"box", "prism", "loft", "revolve", "star", "voxel"}

// DrawMesh draws a closed, outward-oriented model.
func DrawMesh(t *rapid.T, l string, o MeshOpt) MeshSpec {
	kinds := o.Kinds
	if kinds == nil {
		kinds = AllKinds
	}
	grid := o.Grid && P(t, l+".grid", 0.35)
	var s MeshSpec
	nb := 1
	if o.Bodies > 1 && P(t, l+".multi", 0.35) {
		nb = I(t, l+".bodies", 2, o.Bodies)
	}
	// bodies are set apart by their bounding boxes
	right := 0.0
	for i := 0; i < nb; i++ {
		b := DrawBody(t, l+".b", kinds, grid)
		m := b.Mesh()
		lo, hi := m.Box()
		if i > 0 {
			b.At = geo.V{X: math.Ceil(right - lo.X + 1)}
			if P(t, l+".atz", 0.3) {
				b.At.Z = Grid(t, l+".az", 0, 10, 0.5)
			}
			right += hi.X - lo.X + 3
		} else {
			right = hi.X
		}
		s.Bodies = append(s.Bodies, b)
		if o.Cavity && P(t, l+".cavity", 0.3) && (b.Kind == "star" || (b.Kind == "prism" && b.Shape.Kind == "rect" && len(b.Holes) == 0 && len(b.Levels) == 2) || (b.Kind == "voxel" && len(b.Cells) == 1)) {
			// a scaled copy inside, turned inside out
			c := b
			k := F(t, l+".ck", 0.2, 0.8)
			if grid {
				k = 0.5
			}
			cm := b.Mesh()
			mid := geo.V{}
			for _, t := range cm {
				mid = mid.Add(t[0].Add(t[1]).Add(t[2]).Mul(1 / float64(3*len(cm))))
			}
			if b.Kind == "star" {
				mid = b.At
			}
			sc := b.Scale
			if sc == 0 {
				sc = 1
			}
			c.Scale = sc * k
			c.At = mid.Add(b.At.Sub(mid).Mul(k))
			c.Flip = true
			s.Bodies = append(s.Bodies, c)
		}
	}
	if P(t, l+".scale?", 0.2) && !grid {
		s.Scale = Log(t, l+".scale", 0.3, 4)
	}
	if o.Rotate && P(t, l+".rot?", 0.5) {
		if grid {
			ax := Pick(t, l+".rax", geo.V{X: 1}, geo.V{Y: 1}, geo.V{Z: 1})
			s.Rots = []Rot{{ax, 90 * float64(I(t, l+".rq", 1, 3))}}
			s.Snap = 1.0 / 1024
		} else {
			n := I(t, l+".nrot", 1, 2)
			for i := 0; i < n; i++ {
				s.Rots = append(s.Rots, Rot{DrawDir(t, l+".rax"), Nice(t, l+".rdeg", -180, 180, 15)})
			}
		}
	} else if o.Upright && !grid && P(t, l+".turn?", 0.4) {
		s.Rots = []Rot{{geo.V{Z: 1}, Nice(t, l+".turn", -180, 180, 15)}}
	}
	s.OnBed = o.OnBed
	if o.Shift > 0 {
		if P(t, l+".sh?", 0.6) {
			f := func(n string) float64 {
				if grid {
					return Grid(t, l+n, -o.Shift, o.Shift, 0.5)
				}
				return F(t, l+n, -o.Shift, o.Shift)
			}
			s.Shift = geo.V{X: f(".shx"), Y: f(".shy")}
			if !o.OnBed {
				s.Shift.Z = f(".shz")
			}
		} else {
			// centre over the origin is common
			s.Shift = geo.V{}
		}
	}
	if P(t, l+".shuf?", 0.3) {
		s.Shuffle = Seed(t, l+".shuf") | 1
	}
	if P(t, l+".f32?", 0.3) {
		s.F32 = true
	}
	return s
}

// DrawDir draws a non-zero direction, axis-aligned and rational ones over-represented.
func DrawDir(t *rapid.T, l string) geo.V {
	switch I(t, l+".k", 0, 3) {
	case 0:
		return Pick(t, l+".ax", geo.V{Z: 1}, geo.V{X: 1}, geo.V{Y: 1}, geo.V{Z: -1}, geo.V{X: -1}, geo.V{Y: -1})
	case 1:
		for i := 0; ; i++ {
			v := geo.V{X: float64(I(t, l+".ix", -3, 3)), Y: float64(I(t, l+".iy", -3, 3)), Z: float64(I(t, l+".iz", -3, 3))}
			if v.Len() > 0 {
				return v
			}
			if i > 3 {
				return geo.V{Z: 1}
			}
		}
	}
	z := F(t, l+".z", -1, 1)
	a := F(t, l+".a", 0, 2*math.Pi)
	r := math.Sqrt(1 - z*z)
	return geo.V{X: r * math.Cos(a), Y: r * math.Sin(a), Z: z}
}

// KindTag summarises the spec for classification.
func (s MeshSpec) KindTag() string {
	k := ""
	for i, b := range s.Bodies {
		if i > 0 {
			k += "+"
		}
		k += b.Kind
		if b.Shape != nil {
			k += ":" + b.Shape.Kind
		}
		if b.Inner > 0 || len(b.Holes) > 0 {
			k += ":holed"
		}
		if b.Flip {
			k += ":cavity"
		}
	}
	if len(s.Bodies) > 2 {
		return "many bodies"
	}
	return k
}
