package props

import (
	"math"

	"github.com/l1va/goosli/helpers"
	p "github.com/l1va/goosli/primitives"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

type smeshCase struct {
	M gen.MeshSpec `json:"m"`
	// every triangle of the model is divided in 4 as often as this
	Div int `json:"div"`
	// the wanted number of triangles: this part of what there is, plus Add
	F   float64 `json:"f"`
	Add int     `json:"add"`
}

func divide(m geo.Mesh, n int) geo.Mesh {
	for ; n > 0; n-- {
		out := make(geo.Mesh, 0, 4*len(m))
		mid := func(a, b geo.V) geo.V { // the same for both directions of an edge
			return geo.V{X: (a.X + b.X) / 2, Y: (a.Y + b.Y) / 2, Z: (a.Z + b.Z) / 2}
		}
		for _, t := range m {
			a, b, c := mid(t[0], t[1]), mid(t[1], t[2]), mid(t[2], t[0])
			out = append(out, geo.Tri{t[0], a, c}, geo.Tri{a, t[1], b}, geo.Tri{c, b, t[2]}, geo.Tri{a, b, c})
		}
		m = out
	}
	return m
}

func genSMesh(t *rapid.T) smeshCase {
	var c smeshCase
	c.M = gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 2, Rotate: true, Upright: true, Grid: true, Cavity: true, Shift: 50})
	c.Div = gen.I(t, "div", 0, 2)
	switch gen.I(t, "kind", 0, 5) {
	case 0: // hardly anything can be left
		c.F, c.Add = 0, gen.I(t, "few", -2, 8)
	case 1: // one less, exactly, more
		c.F, c.Add = 1, gen.I(t, "near", -3, 3)
	default:
		c.F = gen.F(t, "f", 0.02, 1)
	}
	return c
}

func checkSMesh(c smeshCase, r *fw.Rec) error {
	base := c.M.Build()
	m := base
	for i := 0; i < c.Div && len(m) <= 1500; i++ {
		m = divide(m, 1)
	}
	n := int(c.F*float64(len(m))) + c.Add
	r.Tag("%s", c.M.KindTag())
	mesh := m.Goosli()
	before := meshCopy(mesh)
	// collapses of equal cost are taken in random order
	var off error
	bad := 0
	for k := 0; k < 2 || (bad == k && k < 5); k++ {
		res, err := helpers.SimplifyMesh(mesh, n)
		if !sameTriangles(before, mesh.Triangles) {
			return errf("the input mesh changed")
		}
		if len(m) <= n {
			r.Tag("already small enough")
			if err != nil || res != mesh {
				return errf("%d triangles simplified to %d give %v, not the same mesh (error %v)", len(m), n, res, err)
			}
			continue
		}
		if err != nil {
			r.Tag("error")
			if res != nil {
				return errf("an error comes with a mesh: %v", err)
			}
			if n >= len(m)/2 && n >= 24*len(c.M.Bodies) && c.Div > 0 {
				return errf("%d triangles, divided in four, cannot be reduced to %d: %v", len(m), n, err)
			}
			continue
		}
		if res == nil {
			return errf("neither mesh nor error")
		}
		if len(res.Triangles) > max(n, 0) {
			return errf("%d triangles simplified to at most %d are %d", len(m), n, len(res.Triangles))
		}
		r.NT()
		got := geo.From(res)
		lo, hi := m.Box()
		size := hi.Sub(lo).Len()
		for i := range res.Triangles {
			if err := checkNormal(res.Triangles[i], size+lo.MaxAbs()+hi.MaxAbs()); err != nil {
				return errf("triangle %d: %v", i, err)
			}
		}
		if s := got.Watertight(1e-12); s != "" {
			return errf("%d triangles simplified to %d are not closed: %s", len(m), n, s)
		}
		glo, ghi := got.Box()
		ex := math.Max(math.Max(math.Max(lo.X-glo.X, lo.Y-glo.Y), lo.Z-glo.Z), math.Max(math.Max(ghi.X-hi.X, ghi.Y-hi.Y), ghi.Z-hi.Z))
		if ex > 0.3*size {
			return errf("%d triangles simplified to %d reach %g beyond the model of size %g", len(m), n, ex, size)
		}
		fine := c.Div > 0 && n >= 3*len(base)
		if fine {
			// merging triangles that lie in one plane is enough; now and then the
			// library has used up those collapses, hence judged over several runs
			if v, g := m.Volume(), got.Volume(); ex > 1e-6*size || math.Abs(g-v) > 1e-3*v {
				bad++
				off = errf("%d triangles simplified to %d (%d would do) have volume %g of %g and reach %g beyond the model of size %g, in %d runs of %d",
					len(m), n, len(base), g, v, ex, size, bad, k+1)
			}
			r.Tag("finely tessellated")
		}
	}
	if bad == 5 {
		return off
	}
	return nil
}

func genSMeshNil(t *rapid.T) smeshCase { return smeshCase{Add: gen.I(t, "n", -3, 1000)} }

func checkSMeshNil(c smeshCase, r *fw.Rec) error {
	r.NT()
	if res, err := helpers.SimplifyMesh(nil, c.Add); err == nil || res != nil {
		return errf("no mesh gives %v and error %v", res, err)
	}
	e := &p.Mesh{}
	res, err := helpers.SimplifyMesh(e, c.Add)
	if c.Add >= 0 && (err != nil || res != e) {
		return errf("an empty mesh gives %v and error %v", res, err)
	}
	if c.Add < 0 && err == nil && res != nil && len(res.Triangles) > 0 {
		return errf("an empty mesh has at most %d triangles", c.Add)
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C21", Subs: []*fw.Sub{
		fw.S("simplify", 1500, genSMesh, checkSMesh),
		fw.S("nil", 50, genSMeshNil, checkSMeshNil),
	}})
}
