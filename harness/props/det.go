package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/l1va/goosli/gcode"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- C14: the same result whatever the schedule ----

type detCase struct {
	G   goosliCase `json:"g"`
	Dir geo.V      `json:"dir"` // direction of plain slicing
	CPU []int      `json:"cpu"` // processors, one run each
	Par int        `json:"par"` // runs at the same time
}

func genDet(t *rapid.T) detCase {
	c := detCase{G: genGoosli(t), Dir: geo.V{Z: 1}}
	c.G.Sup = c.G.M.Mode == "3axes" && gen.P(t, "sup", 0.3)
	if gen.P(t, "dense", 0.02) { // many triangles, and an overhang
		l := lean{Shape: gen.Shape{Kind: "ngon", P: []float64{float64(gen.I(t, "dense.n", 110, 190)), 8}}}
		for i := 0; i < 20; i++ {
			s := leanSec{H: 1, S: 0.97 + 0.06*gen.U(t, "dense.s")}
			if i >= 8 {
				s.Angle, s.Dir = 60, 40
			}
			l.Secs = append(l.Secs, s)
		}
		c.G.M.Kind, c.G.M.Mode, c.G.M.Leans, c.G.M.Easy, c.G.Sup = "column", "5axes", []lean{l}, false, false
	}
	if gen.P(t, "dir?", 0.4) {
		c.Dir = gen.DrawDir(t, "dir")
	}
	for i := gen.I(t, "runs", 2, 3); i > 0; i-- {
		c.CPU = append(c.CPU, gen.Pick(t, "cpu", 1, 2, 3, 8, 16))
	}
	c.Par = gen.I(t, "par", 2, 4)
	return c
}

// model is the mesh as sliced.
func (c detCase) model() *p.Mesh {
	m := c.G.M.build().Goosli()
	m.Shift(p.V(c.G.f("originx", 0), c.G.f("originy", 0), c.G.f("originz", 0)))
	return m
}

// layer is the layer height.
func (c detCase) layer(m *p.Mesh) float64 {
	if len(m.Triangles) == 0 {
		return 0.2
	}
	axis := p.AxisZ
	if c.G.M.Mode == "3axes" {
		axis = c.Dir.Unit().Vec()
	}
	lo, hi := m.MinMaxZ(axis)
	return (hi - lo) / float64(c.G.M.N)
}

// planes is the planes file of the case ("" unless there is one).
func (c detCase) planes(m *p.Mesh) string {
	if c.G.M.Mode != "vip planes" || len(m.Triangles) == 0 {
		return ""
	}
	lo, hi := m.MinMaxZ(p.AxisZ)
	s := fmt.Sprintf("X0 Y0 Z%.3f Ttrue R30\n", (lo+hi)/2)
	for _, q := range vip.Analyze(m, 30) {
		s += q.String() + "\n"
	}
	return s
}

// slice slices and describes all of the result to the last bit.
func (c detCase) slice(m *p.Mesh, layer float64, planesFile string) (digest string) {
	defer func() {
		if e := recover(); e != nil {
			digest = fmt.Sprintf("panic: %v", e)
		}
	}()
	set := c.G.settings(layer, planesFile)
	var g gcode.Gcode
	switch c.G.M.Mode {
	case "3axes":
		g = slicers.SliceByVectorToGcode(m, c.Dir.Vec(), set)
	case "5axes":
		g = slicers.Slice5Axes(m, set)
	case "profile":
		g = slicers.SliceByProfile(m, set)
	default:
		g = vip.Slice(m, set)
	}
	h := sha256.New()
	layers, paths := 0, 0
	path := func(kind string, q p.Path) {
		fmt.Fprintf(h, "%s%d:", kind, len(q.Points))
		for _, v := range q.Points {
			fmt.Fprintf(h, "%x %x %x,", math.Float64bits(v.X), math.Float64bits(v.Y), math.Float64bits(v.Z))
		}
	}
	for _, x := range g.Cmds {
		l, ok := x.(gcode.LayersMoving)
		if !ok {
			continue
		}
		for _, y := range l.Layers {
			layers++
			paths += len(y.Paths) + len(y.Fill) + len(y.MiddlePs) + len(y.InnerPs)
			fmt.Fprintf(h, "layer %d", y.Order)
			for _, q := range y.Paths {
				path("p", q)
			}
			for _, q := range y.MiddlePs {
				path("m", q)
			}
			for _, q := range y.InnerPs {
				path("i", q)
			}
			for _, q := range y.Fill {
				path("f", q)
			}
		}
	}
	text := output(g)
	h.Write([]byte(text))
	return fmt.Sprintf("%d layers, %d paths, %d bytes, sum %x", layers, paths, len(text), h.Sum(nil)[:8])
}

// simplified: five-axis slicing simplifies large models with a library that
// takes collapses of equal cost in random order (known finding).
func (c detCase) simplified(m *p.Mesh) bool { return c.G.M.Mode == "5axes" && len(m.Triangles) > 2500 }

func (c detCase) tag(m *p.Mesh, r *fw.Rec) {
	r.Tag("%s", c.G.M.Mode)
	if c.G.Sup {
		r.Tag("supports")
	}
}

func checkDet(c detCase, r *fw.Rec) error {
	m := c.model()
	c.tag(m, r)
	dir := tmpDir()
	defer os.RemoveAll(dir)
	pf := filepath.Join(dir, "planes.txt")
	if s := c.planes(m); s != "" {
		fw.Must(os.WriteFile(pf, []byte(s), 0644))
	}
	layer := c.layer(m)
	before := meshCopy(m)
	old := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(old)
	var first string
	cpus := append([]int{old}, c.CPU...)
	if c.simplified(m) {
		cpus = cpus[:2]
	}
	for i, k := range cpus {
		runtime.GOMAXPROCS(k)
		d := c.slice(m, layer, pf)
		if !sameTriangles(before, m.Triangles) {
			return errf("slicing changed the model")
		}
		if i == 0 {
			first = d
			if !strings.HasPrefix(d, "0 layers") {
				r.NT()
			}
			continue
		}
		if d != first && c.simplified(m) {
			r.KnownFinding("5axes-simplified")
			continue
		}
		if d != first {
			return errf("run %d on %d processors gives %s, the first gave %s", i, k, d, first)
		}
	}
	if c.simplified(m) {
		return nil
	}
	// at the same time, of the same model
	runtime.GOMAXPROCS(8)
	got := make([]string, c.Par)
	var wg sync.WaitGroup
	for i := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = c.slice(m, layer, pf)
		}()
	}
	wg.Wait()
	for i, d := range got {
		if d != first {
			return errf("of %d runs at the same time run %d gives %s, alone it gave %s", c.Par, i, d, first)
		}
	}
	if !sameTriangles(before, m.Triangles) {
		return errf("slicing changed the model")
	}
	return nil
}

// ---- other numbers of processors: worker counts follow what the process may use ----

func affinity(op uintptr, mask *[16]uint64) error {
	_, _, e := syscall.RawSyscall(op, 0, unsafe.Sizeof(*mask), uintptr(unsafe.Pointer(mask)))
	if e != 0 {
		return e
	}
	return nil
}

// onCPUs starts cmd on n of the processors this process may use; false if there are not as many.
func onCPUs(n int, cmd *exec.Cmd) (bool, error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var all, some [16]uint64
	if err := affinity(syscall.SYS_SCHED_GETAFFINITY, &all); err != nil {
		return false, nil
	}
	k := 0
	for i := 0; i < 64*16 && k < n; i++ {
		if all[i/64]>>(i%64)&1 == 1 {
			some[i/64] |= 1 << (i % 64)
			k++
		}
	}
	if k < n || affinity(syscall.SYS_SCHED_SETAFFINITY, &some) != nil {
		return false, nil
	}
	err := cmd.Start()
	fw.Must(affinity(syscall.SYS_SCHED_SETAFFINITY, &all))
	return true, err
}

func digestChild(args []string) {
	b, err := os.ReadFile(args[0])
	fw.Must(err)
	var c detCase
	fw.Must(json.Unmarshal(b, &c))
	out := os.Stdout
	nul, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	fw.Must(err)
	os.Stdout = nul
	m := c.model()
	d := c.slice(m, c.layer(m), args[1])
	fmt.Fprintf(out, "%d %s", runtime.NumCPU(), d)
}

func checkCPUs(c detCase, r *fw.Rec) error {
	m := c.model()
	c.tag(m, r)
	if c.simplified(m) {
		r.Excluded = "simplified at random"
		return nil
	}
	dir := tmpDir()
	defer os.RemoveAll(dir)
	pf := filepath.Join(dir, "planes.txt")
	if s := c.planes(m); s != "" {
		fw.Must(os.WriteFile(pf, []byte(s), 0644))
	}
	b, err := json.Marshal(c)
	fw.Must(err)
	in := filepath.Join(dir, "case.json")
	fw.Must(os.WriteFile(in, b, 0644))
	exe, err := os.Executable()
	fw.Must(err)
	first := c.slice(m, c.layer(m), pf)
	for _, n := range []int{1, 2, 3, 5} {
		cmd := exec.Command(exe, "-child", "digest", in, pf)
		cmd.Dir = dir
		for _, v := range os.Environ() {
			if !strings.HasPrefix(v, "GOMAXPROCS=") {
				cmd.Env = append(cmd.Env, v)
			}
		}
		var out, msg bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &msg
		ok, err := onCPUs(n, cmd)
		if !ok {
			r.Tag("%d processors not available", n)
			continue
		}
		fw.Must(err)
		if err := cmd.Wait(); err != nil {
			s := msg.String()
			fw.Assert(!strings.Contains(s, "HARNESS"), "%s", s)
			return errf("a process on %d processors ended (%v): %s", n, err, s[:min(len(s), 3000)])
		}
		var cpus int
		s := out.String()
		_, err = fmt.Sscanf(s, "%d ", &cpus)
		fw.Must(err)
		r.Tag("%d workers", cpus)
		r.NT()
		if d := s[strings.Index(s, " ")+1:]; d != first {
			return errf("a process on %d processors gives %s, this one gives %s", cpus, d, first)
		}
	}
	return nil
}

// ---- other order of the triangles ----

func checkOrder(c sliceCase, r *fw.Rec) error {
	m := c.M.Build()
	u := c.Dir.Unit()
	rng := gen.NewRng(uint64(c.Cut*1e9) + 7)
	perm := append(geo.Mesh(nil), m...)
	for i := len(perm) - 1; i > 0; i-- {
		j := rng.N(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	for i, t := range perm {
		switch rng.N(3) {
		case 1:
			perm[i] = geo.Tri{t[1], t[2], t[0]}
		case 2:
			perm[i] = geo.Tri{t[2], t[0], t[1]}
		}
	}
	a := slicers.SliceByVector(m.Goosli(), c.Dir.Vec(), baseSettings(c.T))
	b := slicers.SliceByVector(perm.Goosli(), c.Dir.Vec(), baseSettings(c.T))
	r.Tag("%s", c.M.KindTag())
	if len(a) != len(b) {
		return errf("%d layers, %d with the triangles in another order", len(a), len(b))
	}
	lo, hi := m.Box()
	size := hi.Sub(lo).MaxAbs()
	S := size + lo.MaxAbs() + hi.MaxAbs()
	hs := m.Heights(u)
	for k := range a {
		if a[k].Order != b[k].Order {
			return errf("layer %d has number %d, with the triangles in another order %d", k, a[k].Order, b[k].Order)
		}
		if len(a[k].Paths) == 0 && len(b[k].Paths) == 0 {
			continue
		}
		var O geo.V
		if len(a[k].Paths) > 0 {
			O = geo.FromP(a[k].Paths[0].Points[0])
		} else {
			O = geo.FromP(b[k].Paths[0].Points[0])
		}
		f := geo.NewFrame(O, u)
		sum := func(ps []p.Path) (loops []geo.Loop, area, length float64) {
			for _, q := range ps {
				if len(q.Points) < 2 {
					continue
				}
				l := geo.PathLoop(f, q)
				loops = append(loops, l)
				area += l.Area()
				length += l.Len()
			}
			return
		}
		la, aa, na := sum(a[k].Paths)
		lb, ab, nb := sum(b[k].Paths)
		n := 0
		for _, l := range la {
			n += len(l)
		}
		if math.Abs(aa-ab) > 1e-5*(1+na) {
			return errf("layer %d: contours enclose %g, with the triangles in another order %g", k, aa, ab)
		}
		exact := geo.NearestHeight(hs, O.Dot(u)) > 1e-6
		slack := 1e-5*float64(n+1) + 1e-6*na
		if exact {
			for _, s := range m.SectionSegments(f) { // corners with such short sides may be taken for straight
				if s[0].Dist(s[1]) < 1e-2 {
					slack += 1e-3
				}
			}
		}
		if exact && math.Abs(na-nb) > slack {
			return errf("layer %d: contours are %g long, with the triangles in another order %g", k, na, nb)
		}
		near := 1e-5 + 1e-7*S
		for try := 0; try < 8 && len(la)+len(lb) > 0; try++ {
			l := append(append([]geo.Loop(nil), la...), lb...)[rng.N(len(la)+len(lb))]
			i, j := rng.N(len(l)), rng.N(len(l))
			q := l[i].Add(l[j].Sub(l[i]).Mul(rng.F()))
			if try%2 == 0 { // beside the contour
				j = (i + 1) % len(l)
				d := l[j].Sub(l[i])
				if d.Len() < 1e-5 {
					continue
				}
				q = l[i].Add(d.Mul(0.5)).Add(geo.P2{X: -d.Y, Y: d.X}.Mul((2*rng.F() - 1) * 1e-2 * size / d.Len()))
			}
			wa, wb, dist := 0, 0, math.Inf(1)
			for _, o := range la {
				wa += o.Winding(q)
				dist = math.Min(dist, o.Dist(q))
			}
			for _, o := range lb {
				wb += o.Winding(q)
				dist = math.Min(dist, o.Dist(q))
			}
			if dist < near {
				continue
			}
			r.Count("points", 1)
			if wa != 0 {
				r.NT()
			}
			if wa != wb {
				return errf("layer %d: the contours wind %d times around %v, with the triangles in another order %d times", k, wa, f.From(q), wb)
			}
		}
	}
	return nil
}

func init() {
	fw.RegisterChild("digest", digestChild)
	fw.Register(&fw.Prop{ID: "C14", Subs: []*fw.Sub{
		fw.S("schedules", 240, genDet, checkDet),
		fw.S("processors", 60, genDet, checkCPUs),
		fw.S("order", 800, genSlice, checkOrder),
	}})
}
