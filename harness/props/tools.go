package props

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/l1va/goosli/helpers"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- C35: cutter, simplifier, colorizer, analyzer ----

// toolCase is one proper run of a command: options left out have their defaults.
type toolCase struct {
	M     gen.MeshSpec       `json:"m"`
	Div   int                `json:"div"`
	Opt   map[string]float64 `json:"opt"`
	F     float64            `json:"f"`
	Add   int                `json:"add"`
	Dflt  bool               `json:"dflt"` // default outputs
	Short bool               `json:"short"`
	Old   bool               `json:"old"`  // the outputs exist already and are long
	Same  bool               `json:"same"` // cutter: an output is the model file
}

func (c toolCase) get(k string, dflt float64) float64 {
	if x, ok := c.Opt[k]; ok {
		return x
	}
	return dflt
}

func genTool(mesh gen.MeshOpt, names map[string]func(*rapid.T, string) float64) func(t *rapid.T) toolCase {
	var keys []string
	for k := range names {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return func(t *rapid.T) toolCase {
		c := toolCase{Opt: map[string]float64{}}
		if !gen.P(t, "empty", 0.03) {
			c.M = gen.DrawMesh(t, "m", mesh)
		}
		for _, k := range keys {
			if gen.P(t, k+"?", 0.6) {
				c.Opt[k] = names[k](t, k)
			}
		}
		c.Div = gen.I(t, "div", 0, 1)
		c.F = gen.F(t, "f", 0.05, 1.2)
		c.Add = gen.Pick(t, "add", 0, 0, 1, -1)
		c.Dflt = gen.P(t, "dflt", 0.3)
		c.Short = rapid.Bool().Draw(t, "short")
		c.Old = gen.P(t, "old", 0.3)
		return c
	}
}

// run writes the model, calls the command and returns the model as loaded and the contents of the outputs.
func (c toolCase) run(m geo.Mesh, cmd string, outs [][3]string, short map[string]string, more ...string) (*p.Mesh, [][]byte, error) {
	dir := tmpDir()
	defer os.RemoveAll(dir)
	stl := filepath.Join(dir, "model.stl")
	data := stlBytes(coordsOf(m.Goosli()))
	fw.Must(os.WriteFile(stl, data, 0644))
	mesh, err := p.LoadSTL(stl)
	if err != nil {
		return nil, nil, errf("cannot load the model: %v", err)
	}
	var args []string
	add := func(long, sh, val string) {
		if c.Short && sh != "" && !strings.HasPrefix(val, "-") {
			args = append(args, "-"+sh, val)
		} else {
			args = append(args, "--"+long+"="+val)
		}
	}
	add("stl", "s", stl)
	var files []string
	for i, o := range outs { // long flag, short flag, default file
		f := o[2]
		if !c.Dflt {
			f = fmt.Sprintf("result %d", i)
			add(o[0], o[1], f)
		}
		f = filepath.Join(dir, f)
		if c.Old {
			fw.Must(os.WriteFile(f, bytes.Repeat([]byte("old "), len(data)), 0644))
		}
		files = append(files, f)
	}
	var keys []string
	for k := range c.Opt {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		add(k, short[k], ftoa(c.Opt[k]))
	}
	args = append(args, more...)
	o := command(dir, -1, cmd, args...)
	if err := o.succeeded(); err != nil {
		return mesh, nil, errf("%s %v: %v", cmd, args, err)
	}
	var res [][]byte
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return mesh, nil, errf("%s %v: no output: %v", cmd, args, err)
		}
		res = append(res, b)
	}
	if b, err := os.ReadFile(stl); err != nil || !bytes.Equal(b, data) {
		return mesh, nil, errf("%s %v: the model file changed", cmd, args)
	}
	return mesh, res, nil
}

// singles are the triangles as a file holds them, sorted.
func singles(ts [][9]float64) []string {
	r := make([]string, len(ts))
	for i, t := range ts {
		// any start vertex, same direction
		var best string
		for k := 0; k < 3; k++ {
			var s string
			for j := 0; j < 9; j++ {
				s += fmt.Sprintf("%v ", float32(t[(3*k+j)%9]))
			}
			if k == 0 || s < best {
				best = s
			}
		}
		r[i] = best
	}
	sort.Strings(r)
	return r
}

// decodeSTL reads a binary file independently.
func decodeSTL(b []byte) ([][9]float64, error) {
	if len(b) < 84 {
		return nil, errf("a file of %d bytes is no binary STL", len(b))
	}
	n := int(le32(b[80:]))
	if len(b) != 84+50*n {
		return nil, errf("a binary STL of %d triangles has %d bytes", n, len(b))
	}
	r := make([][9]float64, n)
	for i := range r {
		for k := 0; k < 9; k++ {
			r[i][k] = float64(math.Float32frombits(le32(b[84+50*i+12+4*k:])))
		}
	}
	return r, nil
}

func le32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func coord(t *rapid.T, l string) float64 { return gen.Nice(t, l, -30, 30, 1) }
func unit(t *rapid.T, l string) float64  { return gen.Nice(t, l, -1, 1, 0.5) }
func limitAngle(t *rapid.T, l string) float64 {
	return gen.Pick(t, l+"!", 0.0, 1, 2) * 45 * gen.Pick(t, l+"k", 1, 0.5, 0.77)
}

func checkCutter(c toolCase, r *fw.Rec) error {
	P := geo.V{X: c.get("pointx", 0), Y: c.get("pointy", 0), Z: c.get("pointz", 0)}
	N := geo.V{X: c.get("normali", 0), Y: c.get("normalj", 0), Z: c.get("normalk", 1)}
	if N.Len() < 1e-3 {
		r.Excluded = "no plane"
		return nil
	}
	m := c.M.Build()
	mesh, files, err := c.run(m, "goosli_cutter", [][3]string{{"out1", "o", "out1.stl"}, {"out2", "u", "out2.stl"}},
		map[string]string{"pointx": "x", "pointy": "y", "pointz": "z", "normali": "i", "normalj": "j", "normalk": "k"})
	if err != nil {
		return err
	}
	up, down, err := helpers.CutMesh(mesh, p.Plane{P: P.P(), N: N.Vec()})
	if err != nil {
		return errf("library: %v", err)
	}
	u := N.Unit()
	tol := 1e-4 + 1e-5*P.MaxAbs()
	if len(up.Triangles) > 0 && len(down.Triangles) > 0 {
		r.NT()
	}
	for i, want := range []*p.Mesh{up, down} {
		name := []string{"front", "back"}[i]
		ts, err := decodeSTL(files[i])
		if err != nil {
			return errf("%s part: %v", name, err)
		}
		for _, t := range ts {
			for k := 0; k < 9; k += 3 {
				d := geo.V{X: t[k], Y: t[k+1], Z: t[k+2]}.Sub(P).Dot(u)
				if (i == 0 && d < -tol) || (i == 1 && d > tol) {
					return errf("%s part: vertex %v is %g in front of the plane", name, t[k:k+3], d)
				}
			}
		}
		a, b := singles(ts), singles(coordsOf(want))
		if len(a) != len(b) {
			return errf("%s part: %d triangles, the library makes %d", name, len(a), len(b))
		}
		for k := range a {
			if a[k] != b[k] {
				return errf("%s part: triangle %s, the library makes %s", name, a[k], b[k])
			}
		}
	}
	return nil
}

func checkSimplifier(c toolCase, r *fw.Rec) error {
	m := divide(c.M.Build(), c.Div)
	if len(m) > 2500 {
		r.Excluded = "large"
		return nil
	}
	n := int(c.F*float64(len(m))) + c.Add
	if c.Opt["default"] != 0 {
		n = 800
	}
	c.Opt = nil
	var more []string
	if n != 800 {
		more = append(more, fmt.Sprintf("--triangles=%d", n))
	}
	var err error
	var files [][]byte
	tries := 0
	for ; tries < 4; tries++ { // the library reaches small sizes in some runs only
		_, files, err = c.run(m, "goosli_simplifier", [][3]string{{"out", "o", "out.stl"}}, nil, more...)
		if err == nil {
			break
		}
		if strings.Contains(err.Error(), "crashed") || strings.Contains(err.Error(), "does not end") || strings.Contains(err.Error(), "no output") {
			return err
		}
	}
	if err != nil {
		got := 0
		for k := 0; k < 4; k++ {
			if _, e := helpers.SimplifyMesh(m.Goosli(), n); e == nil {
				got++
			}
		}
		if got == 4 {
			return errf("the library simplifies %d triangles to %d each time, but: %v", len(m), n, err)
		}
		r.Tag("not reached")
		return nil
	}
	ts, err := decodeSTL(files[0])
	if err != nil {
		return err
	}
	if len(m) <= n {
		r.Tag("already small enough")
		a, b := singles(ts), singles(coordsOf(m.Goosli()))
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			return errf("%d triangles need no simplification to %d, but came out changed", len(m), n)
		}
		return nil
	}
	if len(ts) > max(n, 0) {
		return errf("%d triangles, %d requested", len(ts), n)
	}
	r.NT()
	if n >= len(m)*3/4 && n >= 24*len(c.M.Bodies) && 2*len(ts) < n {
		return errf("%d triangles of %d are left, %d requested", len(ts), len(m), n)
	}
	lo, hi := m.Box()
	size := hi.Sub(lo).Len()
	for _, t := range ts {
		for k := 0; k < 9; k += 3 {
			for j, x := range []float64{lo.X, lo.Y, lo.Z} {
				y := []float64{hi.X, hi.Y, hi.Z}[j]
				if t[k+j] < x-0.3*size || t[k+j] > y+0.3*size {
					return errf("vertex %v is far from the model (%v to %v)", t[k:k+3], lo, hi)
				}
			}
		}
	}
	return nil
}

func checkColorizer(c toolCase, r *fw.Rec) error {
	N := geo.V{X: c.get("normali", 0), Y: c.get("normalj", 0), Z: c.get("normalk", 1)}
	if N.Len() < 1e-3 {
		r.Excluded = "no direction"
		return nil
	}
	angle := c.get("angle", 30)
	mesh, files, err := c.run(c.M.Build(), "goosli_colorizer", [][3]string{{"out", "o", "colorize_triangles.bin"}},
		map[string]string{"angle": "a", "normali": "i", "normalj": "j", "normalk": "k"})
	if err != nil {
		return err
	}
	b := files[0]
	if len(b) != len(mesh.Triangles) {
		return errf("%d bytes for %d triangles", len(b), len(mesh.Triangles))
	}
	want := helpers.ColorizeTriangles(*mesh, angle, N.Vec())
	m := geo.From(mesh)
	on := 0
	for i := range b {
		w := byte(0)
		if want[i] {
			w = 1
			on++
		}
		if b[i] != w {
			return errf("byte %d is %d, the library's colour is %v", i, b[i], want[i])
		}
		area := m[i].N()
		if area.Len() > 1e-3 {
			a := geo.AngleDeg(area, N.Mul(-1))
			if math.Abs(a-(90-angle)) > 1e-3 && (a < 90-angle) != (b[i] == 1) {
				return errf("byte %d is %d, the triangle faces %g degrees from straight down (limit %g)", i, b[i], a, 90-angle)
			}
		}
	}
	if on > 0 && on < len(b) {
		r.NT()
	}
	return nil
}

func checkAnalyzer(c toolCase, r *fw.Rec) error {
	mesh, files, err := c.run(c.M.Build(), "goosli_analyzer", [][3]string{{"out", "o", "analyzed_planes.txt"}},
		map[string]string{"angle": "a", "originx": "x", "originy": "y", "originz": "z"})
	if err != nil {
		return err
	}
	mesh.Shift(p.V(c.get("originx", 0), c.get("originy", 0), c.get("originz", 0)))
	planes := vip.Analyze(mesh, c.get("angle", 30))
	var want []string
	for _, q := range planes {
		want = append(want, q.String())
	}
	text := string(files[0])
	if text != "" && !strings.HasSuffix(text, "\n") {
		return errf("the last line does not end: %q", text)
	}
	got := strings.Split(text, "\n")
	got = got[:len(got)-1]
	if len(got) != len(want) {
		return errf("%d lines, the library suggests %d planes: %q, %q", len(got), len(want), got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return errf("line %d is %q, the library suggests %q", i, got[i], want[i])
		}
		if _, err := parsePlaneLine(got[i]); err != nil {
			return errf("line %d: %v", i, err)
		}
	}
	r.Tag("%d planes", len(got))
	if len(got) > 0 {
		r.NT()
	}
	return nil
}

func init() {
	type nm = map[string]func(*rapid.T, string) float64
	all := gen.MeshOpt{Bodies: 2, Rotate: true, Upright: true, Grid: true, Cavity: true, Shift: 20}
	bed := all
	bed.OnBed = true
	fw.Register(&fw.Prop{ID: "C35", Termination: true, Subs: []*fw.Sub{
		fw.S("cutter", 400, genTool(all, nm{"pointx": coord, "pointy": coord, "pointz": coord, "normali": unit, "normalj": unit, "normalk": unit}), checkCutter),
		fw.S("simplifier", 300, genTool(all, nm{"default": func(t *rapid.T, l string) float64 { return gen.Pick(t, l, 0.0, 0, 0, 1) }}), checkSimplifier),
		fw.S("colorizer", 400, genTool(all, nm{"angle": limitAngle, "normali": unit, "normalj": unit, "normalk": unit}), checkColorizer),
		fw.S("analyzer", 300, genTool(bed, nm{"angle": limitAngle, "originx": coord, "originy": coord, "originz": coord, "rotcx": coord}), checkAnalyzer),
		fw.S("faults", 500, genBadRun("goosli_cutter", "goosli_simplifier", "goosli_colorizer", "goosli_analyzer"), checkBadRun),
	}})
}
