package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/l1va/goosli/helpers"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// The bed tilts by this much.
const tilt = 60.0

// bedTurned is where a point of the model is when the bed is turned by rotz and
// (when tilted) inclined; about the origin.
func bedTurned(v geo.V, rotz float64, tilted bool) geo.V {
	v = geo.Rot(v, geo.V{Z: 1}, -rotz)
	if tilted {
		v = geo.Rot(v, geo.V{X: 1}, tilt)
	}
	return v
}

// bedUnturned is its inverse.
func bedUnturned(v geo.V, rotz float64, tilted bool) geo.V {
	if tilted {
		v = geo.Rot(v, geo.V{X: 1}, -tilt)
	}
	return geo.Rot(v, geo.V{Z: 1}, rotz)
}

// planeLine is what a plane line says.
type planeLine struct {
	P      geo.V
	Tilted bool
	Rotz   float64
}

func parsePlaneLine(s string) (planeLine, error) {
	var l planeLine
	ws := strings.Fields(s)
	if len(ws) != 5 {
		return l, errf("plane line %q has %d words", s, len(ws))
	}
	for i, k := range []string{"X", "Y", "Z", "T", "R"} {
		w := ws[i]
		if !strings.HasPrefix(w, k) {
			return l, errf("plane line %q: word %d does not start with %s", s, i+1, k)
		}
		w = w[1:]
		if k == "T" {
			if w != "true" && w != "false" {
				return l, errf("plane line %q: flag %q", s, w)
			}
			l.Tilted = w == "true"
			continue
		}
		v, err := strconv.ParseFloat(w, 64)
		if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
			return l, errf("plane line %q: %q is no number", s, w)
		}
		switch k {
		case "X":
			l.P.X = v
		case "Y":
			l.P.Y = v
		case "Z":
			l.P.Z = v
		case "R":
			l.Rotz = v
		}
	}
	return l, nil
}

// normal of the plane that turning and tilting the bed brings to horizontal
func (l planeLine) normal() geo.V { return bedUnturned(geo.V{Z: 1}, l.Rotz, l.Tilted) }

// samePlane: pl is the plane the line l denotes.
func samePlane(pl vip.AnalyzedPlane, l planeLine, tolP, tolN float64) error {
	if d := geo.FromP(pl.P).Dist(l.P); !(d <= tolP) {
		return errf("point %v, the line says %v", pl.P, l.P)
	}
	if d := geo.FromV(pl.N).Unit().Dist(l.normal()); !(d <= tolN) {
		return errf("normal %v, turned by %g and tilted (%v) the bed levels planes of normal %v", pl.N, l.Rotz, l.Tilted, l.normal())
	}
	return nil
}

// ---- C28 ----

type planeCase struct {
	X, Y, Z  string
	T        string
	R        string
	Sep, End string
}

func genPlaneLine(t *rapid.T) planeCase {
	num := func(l string, m float64) string {
		v := 0.0
		switch gen.I(t, l+"k", 0, 3) {
		case 0:
			v = float64(gen.I(t, l+"i", -int(m), int(m)))
		case 1:
			v = gen.Grid(t, l+"g", -m, m, 0.5)
		default:
			v = gen.F(t, l, -m, m)
		}
		return strconv.FormatFloat(v, 'f', gen.Pick(t, l+"dec", 3, 3, 1, 0, 6), 64)
	}
	c := planeCase{X: num("x", 300), Y: num("y", 300), Z: num("z", 300), R: num("r", 400)}
	c.T = gen.Pick(t, "t", "true", "false")
	c.Sep = gen.Pick(t, "sep", " ", " ", "\t", "  ")
	c.End = gen.Pick(t, "end", "", "", " ", "\r")
	return c
}

func checkPlaneLine(c planeCase, r *fw.Rec) error {
	s := strings.Join([]string{"X" + c.X, "Y" + c.Y, "Z" + c.Z, "T" + c.T, "R" + c.R}, c.Sep) + c.End
	want, err := parsePlaneLine(s)
	fw.Must(err)
	r.NT()
	r.Tag("tilted %s, toward %s", c.T, quarter(want.Rotz+90))
	pl := vip.ParsePlane(s)
	// coordinates are read in single precision
	if err := samePlane(pl, want, 1e-6+1e-7*absMax([]geo.V{want.P}), 1e-5); err != nil {
		return errf("%q is read as: %v", s, err)
	}
	// and written again
	got, err := parsePlaneLine(pl.String())
	if err != nil {
		return err
	}
	if got.Tilted != want.Tilted || math.Abs(got.Rotz-want.Rotz) > 0.00051+1e-7*math.Abs(want.Rotz) || got.P.Dist(want.P) > 0.001+1e-7*absMax([]geo.V{want.P}) {
		return errf("%q is read and written as %q", s, pl.String())
	}
	return nil
}

func quarter(deg float64) string {
	k := int(math.Floor(deg/90)) % 4
	if k < 0 {
		k += 4
	}
	return fmt.Sprintf("%d..%d", 90*k, 90*k+90)
}

type analyzeCase struct {
	M     gen.MeshSpec `json:"m"`
	Angle float64      `json:"angle"`
}

func genAnalyze(t *rapid.T) analyzeCase {
	var c analyzeCase
	c.M = gen.DrawMesh(t, "m", gen.MeshOpt{Bodies: 3, Rotate: true, Upright: true, Grid: true, Cavity: true, Shift: 50, OnBed: !gen.P(t, "float", 0.1)})
	switch gen.I(t, "ak", 0, 2) {
	case 0:
		c.Angle = 30
	case 1:
		c.Angle = float64(gen.I(t, "ai", 0, 18)) * 5
	default:
		c.Angle = gen.F(t, "a", 0, 90)
	}
	return c
}

func checkRoundTrip(c analyzeCase, r *fw.Rec) error {
	m := c.M.Build()
	planes := vip.Analyze(m.Goosli(), c.Angle)
	r.Tag("planes %d", len(planes))
	for i, pl := range planes {
		s := pl.String()
		l, err := parsePlaneLine(s)
		if err != nil {
			return errf("plane %d: %v", i, err)
		}
		if l.Tilted {
			r.NT()
			r.Tag("toward %s", quarter(l.Rotz+90))
		}
		if err := samePlane(pl, l, 0.001, 2e-5); err != nil {
			return errf("plane %d, written as %q: %v", i, s, err)
		}
		back := vip.ParsePlane(s)
		if err := samePlane(back, l, 1e-6+1e-7*absMax([]geo.V{l.P}), 1e-5); err != nil {
			return errf("plane %d, written as %q and read again: %v", i, s, err)
		}
		if b, err := parsePlaneLine(back.String()); err != nil || b.Tilted != l.Tilted || math.Abs(b.Rotz-l.Rotz) > 1e-3 {
			return errf("plane %d, written as %q is read and written again as %q", i, s, back.String())
		}
	}
	return nil
}

// ---- C29 ----

// hang is a face that overhangs, certainly or perhaps.
type hang struct {
	T    geo.Tri
	Low  float64
	Sure bool
}

// overhangs along up above the level of the current plane (P,up); faces on the
// bed or on that plane are held up.
func overhangs(m geo.Mesh, limit float64, P, up geo.V) []hang {
	var r []hang
	up = up.Unit()
	for _, t := range m {
		n := t.N()
		side := math.Max(math.Max(t[0].Dist(t[1]), t[1].Dist(t[2])), t[2].Dist(t[0]))
		if n.Len() == 0 {
			continue
		}
		sure := true
		eps := 1e-6 + 1e-9*side*(1+absMax(t[:]))/n.Len() // how well the normal is known, degrees
		dev := geo.AngleDeg(n, up.Mul(-1))
		if dev > 90-limit+eps {
			continue
		}
		if dev > 90-limit-eps {
			sure = false
		}
		top, bed := math.Inf(-1), math.Inf(-1)
		low := math.Inf(1)
		for _, v := range t {
			d := v.Sub(P).Dot(up)
			top, low = math.Max(top, d), math.Min(low, d)
			bed = math.Max(bed, v.Z)
		}
		if bed < 1e-7 || top < 2e-6 {
			continue
		}
		if bed < 0.0101 || top < 0.0101 {
			sure = false
		}
		r = append(r, hang{t, low, sure})
	}
	return r
}

func checkAnalyze(c analyzeCase, r *fw.Rec) error {
	m := c.M.Build()
	mesh := m.Goosli()
	before := meshCopy(mesh)
	planes := vip.Analyze(mesh, c.Angle)
	if !sameTriangles(before, mesh.Triangles) {
		return errf("the input mesh changed")
	}
	r.Tag("planes %d", len(planes))
	if len(planes) > 6 {
		return errf("%d planes", len(planes))
	}
	if len(planes) > 0 {
		r.NT()
	}
	P, up := geo.V{}, geo.V{Z: 1}
	cur := mesh
	tol := 1e-9 * (1 + absMax([]geo.V{c.M.Shift}) + 100)
	for k := 0; ; k++ {
		rest := geo.From(cur)
		hs := overhangs(rest, c.Angle, P, up)
		lowest := math.Inf(1) // of the certain ones
		for _, h := range hs {
			if h.Sure {
				lowest = math.Min(lowest, h.Low)
			}
		}
		if k == len(planes) {
			if k < 6 && !math.IsInf(lowest, 1) {
				return errf("the analysis stops after %d planes, but %g above the last one a face still overhangs", k, lowest)
			}
			return nil
		}
		if len(hs) == 0 {
			return errf("plane %d (%s), but nothing overhangs", k, planes[k])
		}
		l, err := parsePlaneLine(planes[k].String())
		if err != nil {
			return errf("plane %d: %v", k, err)
		}
		if l.Tilted != (k%2 == 0) {
			return errf("plane %d is tilted: %v", k, l.Tilted)
		}
		q, n := geo.FromP(planes[k].P), geo.FromV(planes[k].N)
		if !n.Finite() || n.Len() == 0 || !q.Finite() {
			return errf("plane %d has normal %v at %v", k, n, q)
		}
		n = n.Unit()
		h := q.Sub(P).Dot(up)
		if h > lowest+tol {
			return errf("plane %d passes %g above the current one, a face overhangs %g above it", k, h, lowest)
		}
		ok, facing := false, false
		for _, x := range hs {
			if x.Low < h-tol {
				continue
			}
			has := false
			for _, v := range x.T {
				has = has || (v == q && x.Low > h-tol && x.Low < h+tol)
			}
			if !has {
				continue
			}
			ok = true
			d := x.T.N().Unit()
			flat := geo.V{X: d.X, Y: d.Y}
			// the plane leans to the side to which the face looks
			if flat.Len() < 1e-6 || geo.AngleDeg(flat, geo.V{X: n.X, Y: n.Y}) < 1e-3 {
				facing = true
			}
		}
		if !ok {
			return errf("plane %d passes through %v, %g above the current plane, which is not the lowest point of an overhanging face", k, q, h)
		}
		if l.Tilted {
			if a := geo.AngleDeg(n, geo.V{Z: 1}); math.Abs(a-tilt) > 1e-6 {
				return errf("plane %d is tilted by %g", k, a)
			}
			if !facing {
				return errf("plane %d has normal %v, which does not face the overhang at %v", k, n, q)
			}
		} else if n.Dist(geo.V{Z: 1}) > 1e-9 || l.Rotz != 0 {
			return errf("plane %d is level but has normal %v, turn %g", k, n, l.Rotz)
		}
		P, up = q, n
		next, _, err := helpers.CutMesh(cur, p.Plane{P: planes[k].P, N: planes[k].N})
		fw.Must(err)
		cur = next
	}
}

func checkAnalyzeEmpty(c analyzeCase, r *fw.Rec) error {
	r.NT()
	if pl := vip.Analyze(&p.Mesh{}, c.Angle); len(pl) != 0 {
		return errf("an empty mesh gets %d planes", len(pl))
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{ID: "C28", Subs: []*fw.Sub{
		fw.S("line", 8000, genPlaneLine, checkPlaneLine),
		fw.S("analyse", 3000, genAnalyze, checkRoundTrip),
	}})
	fw.Register(&fw.Prop{ID: "C29", Termination: true, Subs: []*fw.Sub{
		fw.S("analyse", 5000, genAnalyze, checkAnalyze),
		fw.S("empty", 30, genAnalyze, checkAnalyzeEmpty),
	}})
}
