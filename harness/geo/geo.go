// Package geo is the reference geometry: it shares no arithmetic with the code
// under test (its types are used only as data).
package geo

import (
	"fmt"
	"math"
	"sort"

	p "github.com/l1va/goosli/primitives"
)

type V struct{ X, Y, Z float64 }

func (a V) Add(b V) V        { return V{a.X + b.X, a.Y + b.Y, a.Z + b.Z} }
func (a V) Sub(b V) V        { return V{a.X - b.X, a.Y - b.Y, a.Z - b.Z} }
func (a V) Mul(k float64) V  { return V{a.X * k, a.Y * k, a.Z * k} }
func (a V) Dot(b V) float64  { return a.X*b.X + a.Y*b.Y + a.Z*b.Z }
func (a V) Len() float64     { return math.Hypot(math.Hypot(a.X, a.Y), a.Z) }
func (a V) Dist(b V) float64 { return a.Sub(b).Len() }
func (a V) MaxAbs() float64  { return math.Max(math.Abs(a.X), math.Max(math.Abs(a.Y), math.Abs(a.Z))) }
func (a V) Cross(b V) V {
	return V{a.Y*b.Z - a.Z*b.Y, a.Z*b.X - a.X*b.Z, a.X*b.Y - a.Y*b.X}
}
func (a V) Unit() V {
	l := a.Len()
	if l == 0 {
		return a
	}
	return a.Mul(1 / l)
}

func FromP(a p.Point) V   { return V{a.X, a.Y, a.Z} }
func FromV(a p.Vector) V  { return V{a.X, a.Y, a.Z} }
func (a V) P() p.Point    { return p.Point{X: a.X, Y: a.Y, Z: a.Z} }
func (a V) Vec() p.Vector { return p.Vector{X: a.X, Y: a.Y, Z: a.Z} }
func (a V) Finite() bool {
	return !math.IsNaN(a.X+a.Y+a.Z) && !math.IsInf(a.X+a.Y+a.Z, 0)
}
func (a V) String() string { return fmt.Sprintf("(%.9g %.9g %.9g)", a.X, a.Y, a.Z) }

// Rot turns a by deg degrees about the unit axis k through the origin (right hand).
func Rot(a, k V, deg float64) V {
	c, s := math.Cos(deg*math.Pi/180), math.Sin(deg*math.Pi/180)
	k = k.Unit()
	return a.Mul(c).Add(k.Cross(a).Mul(s)).Add(k.Mul(k.Dot(a) * (1 - c)))
}

// AngleDeg is the angle between two vectors, robust near 0 and 180.
func AngleDeg(a, b V) float64 {
	a, b = a.Unit(), b.Unit()
	return 2 * math.Atan2(a.Sub(b).Len(), a.Add(b).Len()) * 180 / math.Pi
}

type Tri [3]V

func (t Tri) N() V          { return t[1].Sub(t[0]).Cross(t[2].Sub(t[0])) }
func (t Tri) Area() float64 { return t.N().Len() / 2 }

type Mesh []Tri

func (m Mesh) Goosli() *p.Mesh {
	ts := make([]p.Triangle, len(m))
	for i, t := range m {
		ts[i] = p.NewTriangle(t[0].P(), t[1].P(), t[2].P())
	}
	r := p.NewMesh(ts)
	return &r
}

func From(m *p.Mesh) Mesh {
	r := make(Mesh, len(m.Triangles))
	for i, t := range m.Triangles {
		r[i] = Tri{FromP(t.P1), FromP(t.P2), FromP(t.P3)}
	}
	return r
}

func (m Mesh) Map(f func(V) V) Mesh {
	r := make(Mesh, len(m))
	for i, t := range m {
		r[i] = Tri{f(t[0]), f(t[1]), f(t[2])}
	}
	return r
}

func (m Mesh) Flip() Mesh {
	r := make(Mesh, len(m))
	for i, t := range m {
		r[i] = Tri{t[0], t[2], t[1]}
	}
	return r
}

// Volume is the signed volume (positive when outward oriented).
func (m Mesh) Volume() float64 {
	if len(m) == 0 {
		return 0
	}
	o := m[0][0]
	s := 0.0
	for _, t := range m {
		s += t[0].Sub(o).Dot(t[1].Sub(o).Cross(t[2].Sub(o)))
	}
	return s / 6
}

// AreaVector is the sum of the facet area vectors, zero for a closed mesh.
func (m Mesh) AreaVector() V {
	s := V{}
	for _, t := range m {
		s = s.Add(t.N().Mul(0.5))
	}
	return s
}

func (m Mesh) Area() float64 {
	s := 0.0
	for _, t := range m {
		s += t.Area()
	}
	return s
}

func (m Mesh) Range(d V) (lo, hi float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, t := range m {
		for _, v := range t {
			x := v.Dot(d)
			lo, hi = math.Min(lo, x), math.Max(hi, x)
		}
	}
	return
}

func (m Mesh) Box() (lo, hi V) {
	lo.X, hi.X = m.Range(V{1, 0, 0})
	lo.Y, hi.Y = m.Range(V{0, 1, 0})
	lo.Z, hi.Z = m.Range(V{0, 0, 1})
	return
}

// Winding is the generalized winding number of the mesh around q: 1 inside, 0 outside.
func (m Mesh) Winding(q V) float64 {
	s := 0.0
	for _, t := range m {
		a, b, c := t[0].Sub(q), t[1].Sub(q), t[2].Sub(q)
		la, lb, lc := a.Len(), b.Len(), c.Len()
		num := a.Dot(b.Cross(c))
		den := la*lb*lc + a.Dot(b)*lc + b.Dot(c)*la + c.Dot(a)*lb
		s += math.Atan2(num, den)
	}
	return s / (2 * math.Pi)
}

// SegDist is the distance of q to segment ab.
func SegDist(q, a, b V) float64 {
	d := b.Sub(a)
	l2 := d.Dot(d)
	if l2 == 0 {
		return q.Dist(a)
	}
	t := math.Max(0, math.Min(1, q.Sub(a).Dot(d)/l2))
	return q.Dist(a.Add(d.Mul(t)))
}

// TriDist is the distance of q to a triangle.
func TriDist(q V, t Tri) float64 {
	n := t.N()
	l := n.Len()
	d := math.Min(SegDist(q, t[0], t[1]), math.Min(SegDist(q, t[1], t[2]), SegDist(q, t[2], t[0])))
	if l == 0 {
		return d
	}
	u := n.Mul(1 / l)
	h := q.Sub(t[0]).Dot(u)
	pr := q.Sub(u.Mul(h))
	in := true
	for i := 0; i < 3; i++ {
		if t[(i+1)%3].Sub(t[i]).Cross(pr.Sub(t[i])).Dot(u) < 0 {
			in = false
		}
	}
	if in {
		return math.Min(d, math.Abs(h))
	}
	return d
}

func (m Mesh) Dist(q V) float64 {
	d := math.Inf(1)
	for _, t := range m {
		d = math.Min(d, TriDist(q, t))
	}
	return d
}

// Watertight: every directed edge occurs as often as its reverse, vertices
// identified when within eps. Returns a description of an unmatched edge or "".
func (m Mesh) Watertight(eps float64) string {
	ids := Weld(m, eps)
	type e struct{ a, b int }
	cnt := map[e]int{}
	for i := range m {
		for k := 0; k < 3; k++ {
			a, b := ids[3*i+k], ids[3*i+(k+1)%3]
			if a == b {
				continue
			}
			cnt[e{a, b}]++
			cnt[e{b, a}]--
		}
	}
	var bad []string
	for k, n := range cnt {
		if n > 0 {
			bad = append(bad, fmt.Sprintf("%v", k))
		}
	}
	sort.Strings(bad)
	if len(bad) > 0 {
		return fmt.Sprintf("%d unmatched edges", len(bad))
	}
	return ""
}

// Weld gives equal numbers to vertices closer than eps (transitively).
func Weld(m Mesh, eps float64) []int {
	var pts []V
	for _, t := range m {
		pts = append(pts, t[0], t[1], t[2])
	}
	return WeldPoints(pts, eps)
}

func WeldPoints(pts []V, eps float64) []int {
	type cell struct{ x, y, z int64 }
	par := make([]int, len(pts))
	for i := range par {
		par[i] = i
	}
	var find func(int) int
	find = func(i int) int {
		for par[i] != i {
			par[i] = par[par[i]]
			i = par[i]
		}
		return i
	}
	grid := map[cell][]int{}
	key := func(v V) cell {
		return cell{int64(math.Floor(v.X / eps)), int64(math.Floor(v.Y / eps)), int64(math.Floor(v.Z / eps))}
	}
	for i, v := range pts {
		k := key(v)
		for dx := int64(-1); dx <= 1; dx++ {
			for dy := int64(-1); dy <= 1; dy++ {
				for dz := int64(-1); dz <= 1; dz++ {
					for _, j := range grid[cell{k.x + dx, k.y + dy, k.z + dz}] {
						if pts[j].Dist(v) <= eps {
							par[find(i)] = find(j)
						}
					}
				}
			}
		}
		// keep one representative per welded group and cell
		dup := false
		for _, j := range grid[k] {
			if pts[j] == v {
				dup = true
				break
			}
		}
		if !dup {
			grid[k] = append(grid[k], i)
		}
	}
	ids := make([]int, len(pts))
	for i := range ids {
		ids[i] = find(i)
	}
	return ids
}

// Frame is an orthonormal frame with E1 x E2 = N.
type Frame struct{ O, E1, E2, N V }

func NewFrame(o, n V) Frame {
	n = n.Unit()
	a := V{1, 0, 0}
	if math.Abs(n.X) > 0.9 {
		a = V{0, 1, 0}
	}
	e1 := a.Sub(n.Mul(a.Dot(n))).Unit()
	return Frame{o, e1, n.Cross(e1), n}
}
func (f Frame) To(v V) P2 {
	d := v.Sub(f.O)
	return P2{d.Dot(f.E1), d.Dot(f.E2)}
}
func (f Frame) From(q P2) V { return f.O.Add(f.E1.Mul(q.X)).Add(f.E2.Mul(q.Y)) }

type P2 struct{ X, Y float64 }

func (a P2) Sub(b P2) P2        { return P2{a.X - b.X, a.Y - b.Y} }
func (a P2) Add(b P2) P2        { return P2{a.X + b.X, a.Y + b.Y} }
func (a P2) Mul(k float64) P2   { return P2{a.X * k, a.Y * k} }
func (a P2) Cross(b P2) float64 { return a.X*b.Y - a.Y*b.X }
func (a P2) Dot(b P2) float64   { return a.X*b.X + a.Y*b.Y }
func (a P2) Len() float64       { return math.Hypot(a.X, a.Y) }
func (a P2) Dist(b P2) float64  { return a.Sub(b).Len() }

func SegDist2(q, a, b P2) float64 {
	d := b.Sub(a)
	l2 := d.Dot(d)
	if l2 == 0 {
		return q.Dist(a)
	}
	t := math.Max(0, math.Min(1, q.Sub(a).Dot(d)/l2))
	return q.Dist(a.Add(d.Mul(t)))
}

// Loop is a polygon; the closing edge runs from the last to the first point.
type Loop []P2

func (l Loop) Area() float64 { // positive counter-clockwise
	if len(l) == 0 {
		return 0
	}
	s, o := 0.0, l[0]
	for i := range l {
		s += l[i].Sub(o).Cross(l[(i+1)%len(l)].Sub(o))
	}
	return s / 2
}

func (l Loop) Len() float64 {
	s := 0.0
	for i := range l {
		s += l[i].Dist(l[(i+1)%len(l)])
	}
	return s
}

func (l Loop) Centroid() P2 {
	a := l.Area()
	o := l[0]
	var c P2
	for i := range l {
		p, q := l[i].Sub(o), l[(i+1)%len(l)].Sub(o)
		d := p.Cross(q)
		c = c.Add(p.Add(q).Mul(d))
	}
	return c.Mul(1 / (6 * a)).Add(o)
}

func (l Loop) Reverse() Loop {
	r := make(Loop, len(l))
	for i := range l {
		r[len(l)-1-i] = l[i]
	}
	return r
}

// Winding is the integer winding number (counter-clockwise positive), exact
// crossing rule on half-open edges.
func (l Loop) Winding(q P2) int {
	w := 0
	for i := range l {
		a, b := l[i], l[(i+1)%len(l)]
		if a.Y <= q.Y {
			if b.Y > q.Y && b.Sub(a).Cross(q.Sub(a)) > 0 {
				w++
			}
		} else if b.Y <= q.Y && b.Sub(a).Cross(q.Sub(a)) < 0 {
			w--
		}
	}
	return w
}

func (l Loop) Dist(q P2) float64 {
	d := math.Inf(1)
	for i := range l {
		d = math.Min(d, SegDist2(q, l[i], l[(i+1)%len(l)]))
	}
	return d
}

// SegCross tells whether two closed segments come within eps of each other.
func SegSegDist2(a, b, c, d P2) float64 {
	ab, cd := b.Sub(a), d.Sub(c)
	o1 := ab.Cross(c.Sub(a))
	o2 := ab.Cross(d.Sub(a))
	o3 := cd.Cross(a.Sub(c))
	o4 := cd.Cross(b.Sub(c))
	if ((o1 > 0 && o2 < 0) || (o1 < 0 && o2 > 0)) && ((o3 > 0 && o4 < 0) || (o3 < 0 && o4 > 0)) {
		return 0
	}
	return math.Min(math.Min(SegDist2(a, c, d), SegDist2(b, c, d)), math.Min(SegDist2(c, a, b), SegDist2(d, a, b)))
}

// SelfDist is the least distance between two non-adjacent edges of the loop
// (0 = self-intersecting), ignoring neighbours.
func (l Loop) SelfDist() float64 {
	n := len(l)
	m := math.Inf(1)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if j == i+1 || (i == 0 && j == n-1) {
				continue
			}
			m = math.Min(m, SegSegDist2(l[i], l[(i+1)%n], l[j], l[(j+1)%n]))
		}
	}
	return m
}

func LoopDist(a, b Loop) float64 {
	m := math.Inf(1)
	for i := range a {
		for j := range b {
			m = math.Min(m, SegSegDist2(a[i], a[(i+1)%len(a)], b[j], b[(j+1)%len(b)]))
		}
	}
	return m
}
