package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	p "github.com/l1va/goosli/primitives"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

func tmpDir() string {
	d, err := os.MkdirTemp("", "c")
	fw.Must(err)
	return d
}

// TriList is a list of triangles, nine coordinates each; when Fill > 0 the list
// is continued to Fill triangles by a stream seeded by Seed.
type TriList struct {
	T    [][9]float64 `json:"t"`
	Fill int          `json:"fill,omitempty"`
	Seed uint64       `json:"seed,omitempty"`
	Mag  float64      `json:"mag,omitempty"`
}

func drawCoord(t *rapid.T, l string, f64 bool) float64 {
	var v float64
	switch gen.I(t, l+"k", 0, 6) {
	case 0:
		v = gen.Grid(t, l+"g", -50, 50, 0.5)
	case 1:
		v = gen.F(t, l+"u", -200, 200)
	case 2:
		b := rapid.Uint32().Draw(t, l+"bits")
		v = float64(math.Float32frombits(uint32(uint64(b) * 2654435761)))
		if math.IsNaN(v) || math.IsInf(v, 0) {
			v = 0
		}
	case 3:
		v = gen.Pick(t, l+"s", 0, math.Copysign(0, -1), 1, -1, float64(math.MaxFloat32), -float64(math.MaxFloat32),
			float64(math.SmallestNonzeroFloat32), 1.1754943508222875e-38, 16777217, 0.1, 1.0/3)
	case 4:
		v = gen.Log(t, l+"m", 1e-30, 1e30)
		if rapid.Bool().Draw(t, l+"neg") {
			v = -v
		}
	default:
		v = gen.F(t, l+"v", -100, 100)
	}
	if f64 {
		return v
	}
	return float64(float32(v))
}

func drawTriList(t *rapid.T, max int) TriList {
	var c TriList
	n := gen.I(t, "n", 0, max)
	f64 := gen.P(t, "f64", 0.3)
	for i := 0; i < n; i++ {
		var tr [9]float64
		if i > 0 && gen.P(t, "dup", 0.1) {
			tr = c.T[gen.I(t, "dupi", 0, i-1)]
		} else {
			for k := range tr {
				tr[k] = drawCoord(t, "x", f64)
			}
			if gen.P(t, "deg", 0.1) { // degenerate: two vertices equal
				copy(tr[3:6], tr[0:3])
			}
		}
		c.T = append(c.T, tr)
	}
	if gen.P(t, "fill", 0.15) {
		c.Fill = gen.I(t, "filln", 1, 4000)
		c.Seed = gen.Seed(t, "fills")
		c.Mag = gen.Log(t, "fillm", 0.01, 1000)
	}
	return c
}

func (c TriList) tris() [][9]float64 {
	r := append([][9]float64{}, c.T...)
	g := gen.NewRng(c.Seed)
	for len(r) < c.Fill {
		var t [9]float64
		for k := range t {
			t[k] = (g.F()*2 - 1) * c.Mag
		}
		r = append(r, t)
	}
	return r
}

func toMesh(ts [][9]float64) *p.Mesh {
	var tr []p.Triangle
	for _, t := range ts {
		tr = append(tr, p.NewTriangle(p.Point{X: t[0], Y: t[1], Z: t[2]}, p.Point{X: t[3], Y: t[4], Z: t[5]}, p.Point{X: t[6], Y: t[7], Z: t[8]}))
	}
	m := p.NewMesh(tr)
	return &m
}

func coords(t p.Triangle) [9]float64 {
	return [9]float64{t.P1.X, t.P1.Y, t.P1.Z, t.P2.X, t.P2.Y, t.P2.Z, t.P3.X, t.P3.Y, t.P3.Z}
}

func f32(x float64) float64 { return float64(float32(x)) }

// sameTris compares loaded triangles with expected coordinates and checks normals.
func sameTris(got *p.Mesh, want [][9]float64) error {
	if got == nil {
		return fmt.Errorf("nil mesh without error")
	}
	if len(got.Triangles) != len(want) {
		return fmt.Errorf("%d triangles, want %d", len(got.Triangles), len(want))
	}
	for i, t := range got.Triangles {
		g := coords(t)
		for k := range g {
			if g[k] != want[i][k] {
				return fmt.Errorf("triangle %d coordinate %d is %v, want %v", i, k, g[k], want[i][k])
			}
		}
		if err := normalOK(t); err != nil {
			return fmt.Errorf("triangle %d: %v", i, err)
		}
	}
	return nil
}

// normalOK: the facet normal points along the right-hand winding of the vertices.
func normalOK(t p.Triangle) error {
	a, b, c := geo.FromP(t.P1), geo.FromP(t.P2), geo.FromP(t.P3)
	e1, e2 := b.Sub(a), c.Sub(a)
	n := e1.Cross(e2)
	g := geo.FromV(t.N)
	l1, l2 := e1.Len(), e2.Len()
	if n.Len() <= 1e-9*l1*l2 {
		return nil // degenerate: no direction
	}
	if !g.Finite() || g.Len() == 0 || geo.AngleDeg(g, n) > 1e-3 {
		return fmt.Errorf("normal %v does not follow the winding (%v)", g, n)
	}
	return nil
}

func stlBytes(ts [][9]float64) []byte {
	var b bytes.Buffer
	b.Write(make([]byte, 80))
	binary.Write(&b, binary.LittleEndian, uint32(len(ts)))
	for _, t := range ts {
		var r [12]float32
		for k := range t {
			r[3+k] = float32(t[k])
		}
		binary.Write(&b, binary.LittleEndian, r)
		b.Write([]byte{0, 0})
	}
	return b.Bytes()
}

// fileIsSTL checks the bytes of a binary STL against the triangles.
func fileIsSTL(b []byte, ts [][9]float64) error {
	if len(b) != 84+50*len(ts) {
		return fmt.Errorf("file has %d bytes, want %d", len(b), 84+50*len(ts))
	}
	if n := binary.LittleEndian.Uint32(b[80:]); int(n) != len(ts) {
		return fmt.Errorf("header announces %d triangles of %d", n, len(ts))
	}
	for i, t := range ts {
		rec := b[84+50*i:]
		for k := range t {
			v := math.Float32frombits(binary.LittleEndian.Uint32(rec[12+4*k:]))
			if float64(v) != f32(t[k]) {
				return fmt.Errorf("record %d coordinate %d is %v, want %v", i, k, v, f32(t[k]))
			}
		}
	}
	return nil
}

func checkC01(c TriList, r *fw.Rec) error {
	ts := c.tris()
	d := tmpDir()
	defer os.RemoveAll(d)
	path := filepath.Join(d, "m.stl")
	m := toMesh(ts)
	if len(ts) > 0 {
		r.NT()
	}
	r.Tag("size %s", bucket(len(ts)))
	// a longer file must be replaced as a whole
	if len(ts)%3 == 0 {
		fw.Must(os.WriteFile(path, make([]byte, 200+60*len(ts)), 0644))
		r.Tag("overwrites a longer file")
	}
	if err := p.SaveSTL(path, m); err != nil {
		return fmt.Errorf("save: %v", err)
	}
	b, err := os.ReadFile(path)
	fw.Must(err)
	if err := fileIsSTL(b, ts); err != nil {
		return err
	}
	want := make([][9]float64, len(ts))
	for i := range ts {
		for k := range ts[i] {
			want[i][k] = f32(ts[i][k])
		}
	}
	for i, t := range m.Triangles { // the saved mesh is untouched
		if coords(t) != ts[i] {
			return fmt.Errorf("saving changed triangle %d", i)
		}
	}
	got, err := p.LoadSTL(path)
	if err != nil {
		return fmt.Errorf("load: %v", err)
	}
	return sameTris(got, want)
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 10:
		return "1-9"
	case n < 100:
		return "10-99"
	case n < 1000:
		return "100-999"
	}
	return "1000+"
}

// ---- C02

type AsciiCase struct {
	T      [][9]string `json:"t"`
	Name   string      `json:"name"`
	Indent []string    `json:"indent"` // per line kind
	Sep    []string    `json:"sep"`
	NL     string      `json:"nl"`
	Blank  bool        `json:"blank"`
	Trail  string      `json:"trail"`
	LastNL bool        `json:"lastnl"`
	Normal int         `json:"normal"`
	Times  int         `json:"times,omitempty"` // the facets are written so often
}

func drawNum(t *rapid.T) string {
	var v float64
	switch gen.I(t, "vk", 0, 3) {
	case 0:
		v = float64(gen.I(t, "int", -20, 20))
	case 1:
		v = gen.F(t, "f", -150, 150)
	case 2:
		v = gen.Log(t, "lg", 1e-30, 1e30)
		if rapid.Bool().Draw(t, "neg") {
			v = -v
		}
	default:
		v = float64(float32(gen.F(t, "f32", -150, 150)))
	}
	var s string
	switch gen.I(t, "fmt", 0, 6) {
	case 0:
		s = strconv.FormatFloat(v, 'g', -1, 64)
	case 1:
		s = strconv.FormatFloat(v, 'f', gen.I(t, "prec", 0, 12), 64)
		if math.Abs(v) > 1e15 {
			s = strconv.FormatFloat(v, 'e', 6, 64)
		}
	case 2:
		s = strconv.FormatFloat(v, 'e', gen.I(t, "prec", 0, 16), 64)
	case 3:
		s = strconv.FormatFloat(v, 'E', gen.I(t, "prec", 0, 9), 64)
	case 4:
		s = strconv.FormatFloat(v, 'g', -1, 32)
	case 5:
		s = strconv.FormatFloat(v, 'g', gen.I(t, "prec", 1, 9), 64)
	default:
		s = strconv.FormatFloat(math.Abs(v), 'f', 6, 64)
		if math.Abs(v) > 1e15 {
			s = "1.5"
		}
		s = strings.TrimPrefix(s, "0") // ".5"
		if s == "" {
			s = "0"
		}
		if v < 0 {
			s = "-" + s
		}
	}
	if v >= 0 && !strings.HasPrefix(s, "-") && gen.P(t, "plus", 0.15) {
		s = "+" + s
	}
	return s
}

func drawAscii(t *rapid.T) AsciiCase {
	var c AsciiCase
	n := gen.I(t, "n", 0, 12)
	short := gen.P(t, "short", 0.25)
	for i := 0; i < n; i++ {
		var tr [9]string
		for k := range tr {
			if short { // as short as a number can be
				tr[k] = gen.Pick(t, "digit", "0", "1", "2", "5", "9", "0", "-1", ".5", "3.")
			} else {
				tr[k] = drawNum(t)
			}
		}
		c.T = append(c.T, tr)
	}
	if n > 0 && gen.P(t, "many", 0.02) {
		c.Times = gen.I(t, "times", 2, 300)
	}
	c.Name = gen.Pick(t, "name", "", "model", "a b  c", "vertex 1 2 3", "OpenSCAD_Model", strings.Repeat("long name ", 40), "ünï", "0 0 0")
	for i := 0; i < 4; i++ {
		c.Indent = append(c.Indent, gen.Pick(t, "ind", "", "  ", "\t", "    ", " \t ", "        "))
	}
	for i := 0; i < 3; i++ {
		c.Sep = append(c.Sep, gen.Pick(t, "sep", " ", "  ", "\t", "   ", " \t"))
	}
	c.NL = gen.Pick(t, "nl", "\n", "\r\n")
	c.Blank = gen.P(t, "blank", 0.3)
	c.Trail = gen.Pick(t, "trail", "", "", " ", "\t")
	c.LastNL = rapid.Bool().Draw(t, "lastnl")
	c.Normal = gen.I(t, "normal", 0, 2)
	return c
}

func (c AsciiCase) text() string {
	var b strings.Builder
	ln := func(kind int, s string) {
		b.WriteString(c.Indent[kind] + s + c.Trail + c.NL)
		if c.Blank {
			b.WriteString(c.NL)
		}
	}
	ln(0, strings.TrimRight("solid "+c.Name, " "))
	for i, t := range c.T {
		switch c.Normal {
		case 0:
			ln(1, "facet normal 0 0 0")
		case 1:
			ln(1, "facet normal 0.577350 0.577350 0.577350")
		default:
			ln(1, "facet normal -1e+00 0.0E0 1e-3")
		}
		ln(2, "outer loop")
		for k := 0; k < 3; k++ {
			ln(3, "vertex"+c.Sep[0]+t[3*k]+c.Sep[1]+t[3*k+1]+c.Sep[2]+t[3*k+2])
		}
		ln(2, "endloop")
		ln(1, "endfacet")
		_ = i
	}
	s := "endsolid " + c.Name
	b.WriteString(c.Indent[0] + strings.TrimRight(s, " "))
	if c.LastNL {
		b.WriteString(c.NL)
	}
	return b.String()
}

func bigF32(s string) float64 {
	f, _, err := big.ParseFloat(s, 10, 400, big.ToNearestEven)
	fw.Must(err)
	v, _ := f.Float32()
	return float64(v)
}

func checkC02(c AsciiCase, r *fw.Rec) error {
	for facets := c.T; c.Times > 1; c.Times-- {
		c.T = append(c.T[:len(c.T):len(c.T)], facets...)
	}
	d := tmpDir()
	defer os.RemoveAll(d)
	path := filepath.Join(d, "a.stl")
	txt := c.text()
	if len(c.T) > 0 {
		r.NT()
	} else {
		r.Tag("no facets")
	}
	want := make([][9]float64, len(c.T))
	for i, t := range c.T {
		for k := range t {
			want[i][k] = bigF32(t[k])
		}
	}
	fw.Must(os.WriteFile(path, []byte(txt), 0644))
	got, err := p.LoadSTL(path)
	if err != nil {
		return fmt.Errorf("text STL rejected: %v", err)
	}
	if err := sameTris(got, want); err != nil {
		return fmt.Errorf("text: %v", err)
	}
	bin := filepath.Join(d, "b.stl")
	fw.Must(os.WriteFile(bin, stlBytes(want), 0644))
	got2, err := p.LoadSTL(bin)
	if err != nil {
		return fmt.Errorf("binary STL rejected: %v", err)
	}
	if err := sameTris(got2, want); err != nil {
		return fmt.Errorf("binary: %v", err)
	}
	for i := range got.Triangles {
		if got.Triangles[i] != got2.Triangles[i] {
			return fmt.Errorf("triangle %d differs between text and binary", i)
		}
	}
	r.Tag("eol %q", c.NL)
	return nil
}

// ---- C03

type DamageCase struct {
	L      TriList `json:"l"`
	Extend int     `json:"extend"` // bytes appended, or
	Cut    int     `json:"cut"`    // bytes kept, counted from the end when negative
	Fill   byte    `json:"fillb"`
	Text   bool    `json:"text,omitempty"`
}

func drawDamage(t *rapid.T) DamageCase {
	c := DamageCase{L: drawTriList(t, 6)}
	if c.L.Fill > 300 {
		c.L.Fill = 300
	}
	size := 84 + 50*len(c.L.tris())
	if gen.P(t, "extend?", 0.35) {
		c.Extend = gen.Pick(t, "ext", 1, 2, 49, 50, 51, 100, 84, 12, 134)
		c.Fill = byte(gen.I(t, "fb", 0, 255))
	} else {
		switch gen.I(t, "ck", 0, 3) {
		case 0:
			c.Cut = gen.I(t, "cut", 0, size-1)
		case 1:
			c.Cut = size - gen.Pick(t, "tail", 1, 2, 12, 36, 48, 49, 50, 51, 100)
		case 2:
			c.Cut = gen.Pick(t, "head", 0, 1, 5, 79, 80, 81, 83, 84, 85, 90, 133)
		default:
			c.Cut = int(gen.U(t, "cutu") * float64(size))
		}
		if c.Cut < 0 || c.Cut >= size {
			c.Cut = size - 1
		}
	}
	return c
}

func checkDamage(c DamageCase, r *fw.Rec) error {
	ts := c.L.tris()
	d := tmpDir()
	defer os.RemoveAll(d)
	path := filepath.Join(d, "m.stl")
	if err := p.SaveSTL(path, toMesh(ts)); err != nil {
		return fmt.Errorf("save: %v", err)
	}
	b, err := os.ReadFile(path)
	fw.Must(err)
	if c.Extend > 0 {
		b = append(b, bytes.Repeat([]byte{c.Fill}, c.Extend)...)
		r.Tag("extended")
	} else {
		if c.Cut >= len(b) {
			r.Excluded = "not shorter"
			return nil
		}
		b = b[:c.Cut]
		switch {
		case c.Cut < 84:
			r.Tag("cut inside the header")
		case (c.Cut-84)%50 == 0:
			r.Tag("cut at a record boundary")
		default:
			r.Tag("cut inside a record")
		}
	}
	r.NT()
	fw.Must(os.WriteFile(path, b, 0644))
	m, err := p.LoadSTL(path)
	if err == nil {
		n := -1
		if m != nil {
			n = len(m.Triangles)
		}
		return fmt.Errorf("damaged file of %d bytes (saved with %d triangles) loaded without error as %d triangles", len(b), len(ts), n)
	}
	return nil
}

type BytesCase struct {
	Kind string  `json:"kind"`
	B    []byte  `json:"b"`
	L    TriList `json:"l"`
	A    string  `json:"a"`
	Pos  []int   `json:"pos"`
	Val  []byte  `json:"val"`
}

func drawBytes(t *rapid.T) BytesCase {
	c := BytesCase{Kind: gen.Pick(t, "kind", "bytes", "binary", "text", "tokens", "header")}
	switch c.Kind {
	case "bytes":
		c.B = rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "b")
	case "binary":
		c.L = drawTriList(t, 4)
		c.L.Fill = 0
	case "text":
		c.A = drawAscii(t).text()
	case "header":
		c.B = append(make([]byte, 80), rapid.SliceOfN(rapid.Byte(), 4, 200).Draw(t, "b")...)
		if rapid.Bool().Draw(t, "solid") {
			copy(c.B, "solid x")
		}
	default:
		n := gen.I(t, "n", 0, 40)
		var s strings.Builder
		for i := 0; i < n; i++ {
			s.WriteString(gen.Pick(t, "tok", "vertex", "vertex ", " 1", " 1e99", " nan", " inf", " 0x1p4", "\n", "v", "solid", "facet normal", " ", "\t", "vvvvvvvvvvvv", "vertex 1 2 3\n", "vertex 1 2\n", "vertexx1 2 3 4\n", "\x00", "é", "-", "endsolid"))
		}
		c.A = s.String()
	}
	n := gen.I(t, "muts", 0, 6)
	for i := 0; i < n; i++ {
		c.Pos = append(c.Pos, gen.I(t, "pos", 0, 400))
		c.Val = append(c.Val, byte(gen.I(t, "val", 0, 255)))
	}
	return c
}

func checkBytes(c BytesCase, r *fw.Rec) error {
	d := tmpDir()
	defer os.RemoveAll(d)
	path := filepath.Join(d, "m.stl")
	b := append([]byte{}, c.B...)
	switch c.Kind {
	case "binary":
		b = stlBytes(c.L.tris())
	case "text", "tokens":
		b = []byte(c.A)
	}
	for i, q := range c.Pos {
		if len(b) > 0 {
			b[q%len(b)] = c.Val[i]
		}
	}
	r.Tag(c.Kind)
	if len(b) >= 84 {
		r.NT()
	}
	fw.Must(os.WriteFile(path, b, 0644))
	m, err := p.LoadSTL(path)
	if (m == nil) == (err == nil) {
		return fmt.Errorf("neither or both of mesh and error: %v %v", m, err)
	}
	if err == nil {
		r.Tag(c.Kind + " loaded")
		if len(m.Triangles)*30 > len(b) {
			return fmt.Errorf("%d triangles from %d bytes", len(m.Triangles), len(b))
		}
	}
	return nil
}

// ---- C04

type FaultCase struct {
	L     TriList `json:"l"`
	Fault string  `json:"fault"`
	Limit int     `json:"limit"`
}

func drawFault(t *rapid.T) FaultCase {
	c := FaultCase{L: drawTriList(t, 8), Fault: gen.Pick(t, "fault", "limit", "full", "limit", "nodir", "isdir", "none")}
	if gen.P(t, "big", 0.4) {
		c.L.Fill = gen.I(t, "bign", 70, 400)
		c.L.Mag = 10
	}
	size := 84 + 50*len(c.L.tris())
	if c.Fault == "limit" {
		switch gen.I(t, "lk", 0, 3) {
		case 0:
			c.Limit = gen.I(t, "lim", 0, size)
		case 1:
			c.Limit = size - gen.I(t, "short", 0, 60)
		case 2:
			c.Limit = 4096 * gen.I(t, "pages", 0, size/4096+1)
		default:
			c.Limit = int(gen.U(t, "limu") * float64(size))
		}
		if c.Limit < 0 {
			c.Limit = 0
		}
	}
	return c
}

// withFileLimit runs f with the soft file size limit of this process set to n bytes.
func withFileLimit(n int, f func()) {
	var old syscall.Rlimit
	fw.Must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	nw := old
	nw.Cur = uint64(n)
	fw.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &nw))
	defer func() { fw.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

func checkC04(c FaultCase, r *fw.Rec) error {
	ts := c.L.tris()
	m := toMesh(ts)
	d := tmpDir()
	defer os.RemoveAll(d)
	path := filepath.Join(d, "m.stl")
	size := 84 + 50*len(ts)
	r.Tag(c.Fault)
	var err error
	switch c.Fault {
	case "full":
		r.NT()
		if p.SaveSTL("/dev/full", m) == nil {
			return fmt.Errorf("saving %d bytes to a full device reported success", size)
		}
		return nil
	case "nodir":
		if p.SaveSTL(filepath.Join(d, "no", "m.stl"), m) == nil {
			return fmt.Errorf("saving into a missing directory reported success")
		}
		return nil
	case "isdir":
		if p.SaveSTL(d, m) == nil {
			return fmt.Errorf("saving over a directory reported success")
		}
		return nil
	case "limit":
		withFileLimit(c.Limit, func() { err = p.SaveSTL(path, m) })
	default:
		err = p.SaveSTL(path, m)
	}
	complete := c.Fault == "none" || c.Limit >= size
	if !complete {
		r.NT()
		r.Tag("stops at %s of %s", bucket(c.Limit/4096), bucket(size/4096))
		if err == nil {
			return fmt.Errorf("writing stopped at byte %d of %d but saving reported success", c.Limit, size)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("saving failed although every byte could be written: %v", err)
	}
	b, e := os.ReadFile(path)
	fw.Must(e)
	return fileIsSTL(b, ts)
}

func init() {
	fw.Register(&fw.Prop{ID: "C01", Subs: []*fw.Sub{
		fw.S("roundtrip", 6000, func(t *rapid.T) TriList { return drawTriList(t, 30) }, checkC01),
	}})
	fw.Register(&fw.Prop{ID: "C02", Subs: []*fw.Sub{
		fw.S("ascii", 8000, drawAscii, checkC02),
	}})
	fw.Register(&fw.Prop{ID: "C03", Subs: []*fw.Sub{
		fw.S("damaged", 8000, drawDamage, checkDamage),
		fw.S("bytes", 10000, drawBytes, checkBytes),
	}})
	fw.Register(&fw.Prop{ID: "C04", Subs: []*fw.Sub{
		fw.S("faults", 8000, drawFault, checkC04),
	}})
}
