package props

import (
	"math"

	p "github.com/l1va/goosli/primitives"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- C05 rigid motions ----

type motionCase struct {
	Mesh   *gen.MeshSpec `json:"mesh,omitempty"`
	List   *TriList      `json:"list,omitempty"`
	Axis   string        `json:"axis"` // X or Z
	Deg    float64       `json:"deg"`
	Around geo.V         `json:"around"`
	Shift  geo.V         `json:"shift"`
	V      geo.V         `json:"v"`
	B      geo.V         `json:"b"`
}

func genMotion(t *rapid.T) motionCase {
	var c motionCase
	if gen.P(t, "list", 0.4) {
		l := TriList{}
		for i := gen.I(t, "n", 0, 6); i > 0; i-- {
			var tr [9]float64
			for k := range tr {
				tr[k] = gen.Nice(t, "c", -100, 100, 5)
			}
			l.T = append(l.T, tr)
		}
		c.List = &l
	} else {
		m := gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 2, Rotate: true, Grid: true, Shift: 50})
		c.Mesh = &m
	}
	c.Axis = gen.Pick(t, "axis", "X", "Z")
	c.Deg = drawAngle(t, "deg")
	if gen.P(t, "ar?", 0.7) {
		c.Around = drawPoint(t, "around", 100)
	}
	c.Shift = drawPoint(t, "shift", 100)
	c.V = drawVec(t, "v", 1e-2, 1e3)
	c.B = drawVec(t, "b", 1e-2, 1e3)
	return c
}

func refAxis(a string) geo.V {
	if a == "X" {
		return geo.V{X: 1}
	}
	return geo.V{Z: 1}
}

func checkMotion(c motionCase, r *fw.Rec) error {
	var m *p.Mesh
	if c.List != nil {
		m = toMesh(c.List.tris())
	} else {
		m = c.Mesh.Build().Goosli()
	}
	g := geo.From(m)
	before := meshCopy(m)
	rmOf := func(deg float64) p.RotationMatrix {
		if c.Axis == "X" {
			return p.RotationAroundX(deg)
		}
		return p.RotationAroundZ(deg)
	}
	rm := rmOf(c.Deg)
	scale := 1 + c.Around.MaxAbs()
	for _, t := range g {
		for _, v := range t {
			scale = math.Max(scale, v.MaxAbs())
		}
	}
	tol := 1e-10 * scale
	// the provided rotations turn by minus the angle (the bed turns, the model is seen turning back)
	ref := func(v geo.V) geo.V { return geo.Rot(v.Sub(c.Around), refAxis(c.Axis), -c.Deg).Add(c.Around) }
	out := m.Rotate(rm, c.Around.P())
	if !sameTriangles(before, m.Triangles) {
		return errf("Mesh.Rotate changed its input")
	}
	if len(out.Triangles) != len(g) {
		return errf("%d triangles became %d", len(g), len(out.Triangles))
	}
	og := geo.From(out)
	for i := range g {
		for k := 0; k < 3; k++ {
			if want := ref(g[i][k]); og[i][k].Dist(want) > tol {
				return errf("vertex %d of triangle %d: rotating %v about %v by %g gives %v, want %v", k, i, g[i][k], c.Around, c.Deg, og[i][k], want)
			}
		}
		if err := checkNormal(out.Triangles[i], scale); err != nil {
			return errf("after Rotate, triangle %d: %v", i, err)
		}
	}
	if c.Mesh != nil {
		if a, b := g.Volume(), og.Volume(); math.Abs(a-b) > 1e-9*(math.Abs(a)+scale*scale) {
			return errf("volume %g became %g", a, b)
		}
	}
	back := out.Rotate(rmOf(-c.Deg), c.Around.P())
	for i, t := range geo.From(back) {
		for k := range t {
			if t[k].Dist(g[i][k]) > tol {
				return errf("rotating by %g and back moves %v to %v", c.Deg, g[i][k], t[k])
			}
		}
	}
	// the centre stays
	one := geo.Mesh{{c.Around, c.Around.Add(geo.V{X: 1}), c.Around.Add(geo.V{Y: 1})}}.Goosli().Rotate(rm, c.Around.P())
	if geo.FromP(one.Triangles[0].P1).Dist(c.Around) > tol {
		return errf("the centre of rotation %v moved to %v", c.Around, one.Triangles[0].P1)
	}
	// points, vectors, planes
	vtol := 1e-10 * (1 + c.V.Len())
	wantV := geo.Rot(c.V, refAxis(c.Axis), -c.Deg)
	if got := geo.FromV(c.V.Vec().Rotate(rm)); got.Dist(wantV) > vtol {
		return errf("Vector.Rotate(%v) = %v, want %v", c.V, got, wantV)
	}
	pl := p.Plane{P: c.Around.P(), N: c.V.Vec()}.Rotate(rm)
	if geo.FromV(pl.N).Dist(wantV) > vtol || geo.FromP(pl.P).Dist(geo.Rot(c.Around, refAxis(c.Axis), -c.Deg)) > tol {
		return errf("Plane.Rotate(%v, %v) = %v", c.Around, c.V, pl)
	}
	if got, want := geo.FromV(c.V.Vec().RotateAbout(c.B.Vec(), c.Deg)), geo.Rot(c.V, c.B, c.Deg); got.Dist(want) > 1e-7*c.V.Len() {
		return errf("RotateAbout(%v about %v by %g) = %v, want %v", c.V, c.B, c.Deg, got, want)
	}
	// shift
	sc := &p.Mesh{Triangles: meshCopy(m)}
	sc.Shift(c.Shift.Vec())
	if len(sc.Triangles) != len(g) {
		return errf("Shift changed the number of triangles")
	}
	stol := 1e-12 * (scale + c.Shift.MaxAbs())
	for i, t := range geo.From(sc) {
		for k := range t {
			if t[k].Dist(g[i][k].Add(c.Shift)) > stol {
				return errf("Shift by %v moves %v to %v", c.Shift, g[i][k], t[k])
			}
		}
		if err := checkNormal(sc.Triangles[i], scale+c.Shift.MaxAbs()); err != nil {
			return errf("after Shift, triangle %d: %v", i, err)
		}
		// a rigid motion keeps the normal itself
		if d := geo.FromV(sc.Triangles[i].N).Dist(geo.FromV(before[i].N)); d > 1e-9*(scale+c.Shift.MaxAbs())*(scale+c.Shift.MaxAbs()) {
			return errf("Shift changed the normal of triangle %d", i)
		}
	}
	for i := range g {
		if d := geo.FromV(out.Triangles[i].N).Dist(geo.Rot(geo.FromV(before[i].N), refAxis(c.Axis), -c.Deg)); d > 1e-9*scale*scale {
			return errf("Rotate turned the normal of triangle %d otherwise than its vertices", i)
		}
	}
	r.Count("triangles", len(g))
	r.Tag("axis " + c.Axis)
	if len(g) > 0 && c.Deg != 0 {
		r.NT()
	}
	return nil
}

func checkNormal(t p.Triangle, scale float64) error {
	g := geo.Tri{geo.FromP(t.P1), geo.FromP(t.P2), geo.FromP(t.P3)}
	if d := geo.FromV(t.N).Dist(g.N()); d > 1e-10*scale*scale {
		return errf("normal %v, its vertices give %v", t.N, g.N())
	}
	return nil
}

// ---- C06 vector algebra ----

type vecCase struct {
	A, B geo.V
	Rel  string
	K    float64
	P, Q geo.V
}

func genVec(t *rapid.T) vecCase {
	var c vecCase
	c.A = drawVec(t, "a", 1e-4, 1e5)
	c.Rel = gen.Pick(t, "rel", "any", "parallel", "opposite", "nearly parallel", "nearly opposite", "perpendicular", "axis")
	c.K = gen.Log(t, "k", 1e-4, 1e4)
	switch c.Rel {
	case "any":
		c.B = drawVec(t, "b", 1e-4, 1e5)
	case "parallel":
		c.B = c.A.Mul(c.K)
	case "opposite":
		c.B = c.A.Mul(-c.K)
	case "nearly parallel", "nearly opposite":
		d := drawVec(t, "d", 1e-12, 1e-2)
		c.B = c.A.Unit().Add(d).Mul(c.K)
		if c.Rel == "nearly opposite" {
			c.B = c.B.Mul(-1)
		}
	case "perpendicular":
		c.B = c.A.Cross(drawVec(t, "b", 1e-1, 10))
		if c.B.Len() < 1e-4 {
			c.B = c.A.Cross(geo.V{X: -c.A.Y - 1, Y: c.A.Z, Z: c.A.X})
		}
		if c.B.Len() == 0 {
			c.B = geo.V{X: 1}
		}
	case "axis":
		c.B = gen.Pick(t, "ax", geo.V{X: 1}, geo.V{Y: 1}, geo.V{Z: 1}, geo.V{X: -1}, geo.V{Y: -1}, geo.V{Z: -1})
	}
	c.P = drawPoint(t, "p", 1000)
	c.Q = drawPoint(t, "q", 1000)
	return c
}

func checkVec(c vecCase, r *fw.Rec) error {
	a, b := c.A.Vec(), c.B.Vec()
	la, lb := c.A.Len(), c.B.Len()
	if la < 1e-8 || lb < 1e-8 || la > 1e10 || lb > 1e10 {
		r.Excluded = "magnitude"
		return nil
	}
	r.Tag(c.Rel)
	r.NT()
	want := geo.AngleDeg(c.A, c.B)
	const tol = 2e-5
	got := a.Angle(b)
	if !near(got, want, tol) {
		return errf("angle of %v and %v is %.9g, want %.9g", c.A, c.B, got, want)
	}
	if g := b.Angle(a); !near(g, got, tol) {
		return errf("angle depends on the argument order: %.9g and %.9g", got, g)
	}
	if g := a.Reverse().Angle(b); !near(g, 180-want, tol) {
		return errf("angle of reversed %v and %v is %.9g, want %.9g", c.A, c.B, g, 180-want)
	}
	if g := a.MulScalar(c.K).Angle(b); !near(g, want, tol) {
		return errf("angle of %v scaled by %g and %v is %.9g, want %.9g", c.A, c.K, c.B, g, want)
	}
	if got < 0 || got > 180 || math.IsNaN(got) {
		return errf("angle %g out of range", got)
	}
	vec := func(name string, got p.Vector, want geo.V, s float64) error {
		if d := geo.FromV(got).Dist(want); !(d <= 1e-12*s) {
			return errf("%s of %v and %v = %v, want %v", name, c.A, c.B, got, want)
		}
		return nil
	}
	for _, e := range []error{
		vec("sum", a.Add(b), c.A.Add(c.B), la+lb),
		vec("difference", a.Sub(b), c.A.Sub(c.B), la+lb),
		vec("cross product", a.Cross(b), c.A.Cross(c.B), la*lb*4),
		vec("reverse", a.Reverse(), c.A.Mul(-1), la),
		vec("scaled", a.MulScalar(c.K), c.A.Mul(c.K), la*c.K),
	} {
		if e != nil {
			return e
		}
	}
	if !near(a.Dot(b), c.A.Dot(c.B), 1e-12*la*lb) {
		return errf("dot product of %v and %v = %g", c.A, c.B, a.Dot(b))
	}
	if x := a.Cross(b); math.Abs(x.Dot(a)) > 1e-11*la*la*lb || math.Abs(x.Dot(b)) > 1e-11*la*lb*lb {
		return errf("cross product of %v and %v is not perpendicular to them", c.A, c.B)
	}
	if !near(a.Length(), la, 1e-12*la) || !near(a.LengthSquare(), la*la, 1e-12*la*la) {
		return errf("length of %v = %g, squared %g", c.A, a.Length(), a.LengthSquare())
	}
	if n := a.Normalize(); !near(geo.FromV(n).Len(), 1, 1e-12) || geo.FromV(n).Dist(c.A.Unit()) > 1e-12 {
		return errf("normalised %v = %v", c.A, n)
	}
	if d := c.A.Dot(c.B); math.Abs(d) > 1e-11*la*lb && a.CodirectedWith(b) != (d > 0) {
		return errf("%v codirected with %v: %v", c.A, c.B, d <= 0)
	}
	// projections
	pr := geo.FromV(a.ProjectOn(b))
	if math.Abs(c.A.Sub(pr).Dot(c.B)) > 1e-10*la*lb || pr.Cross(c.B).Len() > 1e-10*la*lb {
		return errf("projection of %v on %v = %v is not orthogonal", c.A, c.B, pr)
	}
	if d := geo.FromV(pr.Vec().ProjectOn(b)).Dist(pr); d > 1e-10*la {
		return errf("projecting %v on %v twice differs by %g", c.A, c.B, d)
	}
	pl := p.Plane{P: c.P.P(), N: b}
	pp := geo.FromV(a.ProjectOnPlane(pl))
	if math.Abs(pp.Dot(c.B)) > 1e-10*la*lb || c.A.Sub(pp).Cross(c.B).Len() > 1e-10*la*lb {
		return errf("projection of %v on the plane with normal %v = %v", c.A, c.B, pp)
	}
	if d := geo.FromV(pp.Vec().ProjectOnPlane(pl)).Dist(pp); d > 1e-10*la {
		return errf("projecting %v on a plane twice differs by %g", c.A, d)
	}
	// points
	S := 1 + c.P.MaxAbs() + c.Q.MaxAbs()
	qp := geo.FromP(pl.ProectionPointToPlane(c.Q.P()))
	u := c.B.Unit()
	if math.Abs(qp.Sub(c.P).Dot(u)) > 1e-10*S || qp.Sub(c.Q).Cross(u).Len() > 1e-10*S {
		return errf("projection of point %v to plane %v %v = %v", c.Q, c.P, c.B, qp)
	}
	if d := geo.FromP(pl.ProectionPointToPlane(qp.P())).Dist(qp); d > 1e-10*S {
		return errf("projecting a point twice to a plane differs by %g", d)
	}
	if d := c.Q.Sub(c.P).Dot(u); math.Abs(d) > 1e-9*S && pl.PointInFront(c.Q.P()) != (d > 0) {
		return errf("point %v in front of plane %v %v: %v", c.Q, c.P, c.B, d <= 0)
	}
	e := c.P.Add(c.A)
	if e.Dist(c.P) > 1e-6*S {
		ql := geo.FromP(c.Q.P().ProjectOnLine(c.P.P(), e.P()))
		du := e.Sub(c.P).Unit()
		et := 1e-14 * S / e.Dist(c.P) * (c.Q.Dist(c.P) + 1) * 10 // the direction itself is rounded
		if math.Abs(c.Q.Sub(ql).Dot(du)) > 1e-10*S+et || ql.Sub(c.P).Cross(du).Len() > 1e-10*S+et {
			return errf("projection of %v on the line %v %v = %v", c.Q, c.P, e, ql)
		}
		if d := geo.FromP(ql.P().ProjectOnLine(c.P.P(), e.P())).Dist(ql); d > 1e-10*S {
			return errf("projecting twice on a line differs by %g", d)
		}
		wd := c.Q.Sub(c.P).Cross(du).Len()
		if gd := c.Q.P().DistanceToLine(c.P.P(), e.P()); !near(gd, wd, 1e-9*S+et) {
			return errf("distance of %v to the line %v %v = %g, want %g", c.Q, c.P, e, gd, wd)
		}
	}
	if !near(c.P.P().DistanceTo(c.Q.P()), c.P.Dist(c.Q), 1e-12*S) || !near((p.Line{P1: c.P.P(), P2: c.Q.P()}).Len(), c.P.Dist(c.Q), 1e-12*S) {
		return errf("distance of %v and %v = %g", c.P, c.Q, c.P.P().DistanceTo(c.Q.P()))
	}
	dq := c.Q.Sub(c.P)
	for _, v := range []p.Vector{c.P.P().VectorTo(c.Q.P()), (p.Line{P1: c.P.P(), P2: c.Q.P()}).ToVector(), p.ToVector(c.P.P(), c.Q.P())} {
		if geo.FromV(v).Dist(dq) > 1e-12*S {
			return errf("vector from %v to %v = %v", c.P, c.Q, v)
		}
	}
	if geo.FromP(c.P.P().Shift(a)).Dist(c.P.Add(c.A)) > 1e-12*(S+la) {
		return errf("%v shifted by %v = %v", c.P, c.A, c.P.P().Shift(a))
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C05", Subs: []*fw.Sub{fw.S("motions", 8000, genMotion, checkMotion)}})
	fw.Register(&fw.Prop{ID: "C06", Subs: []*fw.Sub{fw.S("algebra", 60000, genVec, checkVec)}})
}
