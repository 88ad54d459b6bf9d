package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/l1va/goosli/debug"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- C36: debug output ----
// The package reads its configuration when the process starts, so every
// history runs in a child process with a folder of its own.

type debugOp struct {
	Op    string    `json:"op"`
	Color int       `json:"color"`
	Paths [][]geo.V `json:"paths"`
	Mesh  int       `json:"mesh"`
}

type debugCase struct {
	Config string    `json:"config"` // on, off, none, empty
	Old    string    `json:"old"`    // what the debug file held before; "-": there is none
	Style  int       `json:"style"`
	Ops    []debugOp `json:"ops"`
}

var debugColors = []debug.DebugColor{debug.RedColor, debug.BlueColor, debug.GreenColor, debug.BlackColor}
var debugNames = []string{"Red", "Blue", "Green", "Black"}

func genDebug(t *rapid.T) debugCase {
	c := debugCase{Config: gen.Pick(t, "config", "on", "on", "on", "off", "off", "none", "nofile"), Style: gen.I(t, "style", 0, 3)}
	c.Old = gen.Pick(t, "old", "-", "-", "", "line Red 1.000 2.000 3.000 4.000 5.000 6.000 \n", "something else")
	pt := func() geo.V {
		return geo.V{X: gen.Nice(t, "x", -300, 300, 0.25), Y: gen.Nice(t, "y", -300, 300, 0.25), Z: gen.F(t, "z", -300, 300)}
	}
	pts := func(lo, hi int) []geo.V {
		var r []geo.V
		for i := gen.I(t, "n", lo, hi); i > 0; i-- {
			r = append(r, pt())
		}
		return r
	}
	for i := gen.I(t, "ops", 1, 10); i > 0; i-- {
		o := debugOp{Op: gen.Pick(t, "op", "line", "triangle", "points triangle", "path", "layer", "points", "line", "path", "recreate", "slice"), Color: gen.I(t, "color", 0, 3)}
		switch o.Op {
		case "line":
			o.Paths = [][]geo.V{pts(2, 2)}
		case "triangle", "points triangle":
			o.Paths = [][]geo.V{pts(3, 3)}
		case "path", "points":
			o.Paths = [][]geo.V{pts(0, 6)}
		case "layer":
			for k := gen.I(t, "paths", 0, 3); k > 0; k-- {
				o.Paths = append(o.Paths, pts(0, 4))
			}
		case "slice":
			o.Op = gen.Pick(t, "mode", "3axes", "5axes", "profile", "vip", "vip planes")
			o.Mesh = gen.I(t, "mesh", 0, 3)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// debugMesh are small models that take the branches of the modes.
func debugMesh(k int) *p.Mesh {
	box := func(x0, y0, z0, x1, y1, z1 float64) geo.Mesh {
		return boxMesh(geo.V{X: x0, Y: y0, Z: z0}, geo.V{X: x1, Y: y1, Z: z1})
	}
	l := lean{Shape: gen.Shape{Kind: "rect", P: []float64{8, 6}}}
	switch k {
	case 0:
		return box(-4, -3, 0, 4, 3, 4).Goosli()
	case 1: // leans
		l.Secs = []leanSec{{H: 6, S: 1}, {H: 8, Angle: 60, Dir: 30, S: 1}}
		return l.build().Goosli()
	case 2: // two legs
		a := l
		a.Secs = []leanSec{{H: 6, S: 1}, {H: 8, Angle: 50, Dir: 0, S: 1}}
		b := a
		b.At = geo.V{X: 30}
		return append(a.build(), b.build()...).Goosli()
	}
	// spikes: offsets that do not meet
	l.Shape = gen.Shape{Kind: "ngon", P: []float64{16, 7}}
	l.Secs = []leanSec{{H: 5, S: 1}, {H: 5, Angle: 55, Dir: 200, S: 0.8}}
	return l.build().Goosli()
}

// debugHistory is the child: it makes the calls and notes what the file holds after slicing.
func debugHistory(args []string) {
	b, err := os.ReadFile(args[0])
	fw.Must(err)
	var c debugCase
	fw.Must(json.Unmarshal(b, &c))
	nul, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	fw.Must(err)
	out := os.Stdout
	os.Stdout = nul
	toPath := func(vs []geo.V) p.Path { return pathOf(vs) }
	var after []string
	for _, o := range c.Ops {
		col := debugColors[o.Color]
		switch o.Op {
		case "recreate":
			debug.RecreateFile()
		case "line":
			debug.AddLine(p.Line{P1: o.Paths[0][0].P(), P2: o.Paths[0][1].P()}, col)
		case "triangle":
			debug.AddTriangle(p.NewTriangle(o.Paths[0][0].P(), o.Paths[0][1].P(), o.Paths[0][2].P()), col)
		case "points triangle":
			debug.AddTriangleByPoints(o.Paths[0][0].P(), o.Paths[0][1].P(), o.Paths[0][2].P(), col)
		case "path":
			debug.AddPath(toPath(o.Paths[0]), col)
		case "points":
			debug.AddPointsToFile(toPath(o.Paths[0]).Points, col)
		case "layer":
			var l p.Layer
			for _, q := range o.Paths {
				l.Paths = append(l.Paths, toPath(q))
			}
			debug.AddLayer(l, col)
		default:
			set := baseSettings(0.5)
			set.PlanesFile = filepath.Join(filepath.Dir(args[0]), "planes.txt")
			set.WallThickness, set.SkirtLineCount = 2, 2
			os.Remove(set.PlanesFile)
			m := debugMesh(o.Mesh)
			switch o.Op {
			case "3axes":
				slicers.SliceByVectorToGcode(m, p.AxisZ, set)
			case "5axes":
				slicers.Slice5Axes(m, set)
			case "profile":
				slicers.SliceByProfile(m, set)
			default:
				if o.Op == "vip planes" {
					fw.Must(os.WriteFile(set.PlanesFile, []byte("X0.0 Y0.0 Z3.0 Ttrue R30.0\n"), 0644))
				}
				vip.Slice(m, set)
			}
		}
		d, err := os.ReadFile(args[1])
		if err != nil {
			d = []byte("-")
		}
		after = append(after, string(d))
	}
	b, err = json.Marshal(after)
	fw.Must(err)
	fmt.Fprintf(out, "%s\n", b)
}

var debugLine = regexp.MustCompile(`^(line|triangle) (Red|Blue|Green|Black)((?: -?(?:\d+\.\d{3}|NaN|\+?Inf))+) ?$`)

// readDebug reads the lines of a debug file.
func readDebug(s string) ([]debugItem, error) {
	if s == "" {
		return nil, nil
	}
	if !strings.HasSuffix(s, "\n") {
		return nil, errf("the last line does not end")
	}
	var r []debugItem
	for i, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		m := debugLine.FindStringSubmatch(l)
		if m == nil {
			return nil, errf("line %d is no segment and no triangle: %q", i, l)
		}
		it := debugItem{Kind: m[1], Color: m[2]}
		for _, f := range strings.Fields(m[3]) {
			x, err := strconv.ParseFloat(f, 64)
			fw.Must(err)
			it.X = append(it.X, x)
		}
		if len(it.X) != map[string]int{"line": 6, "triangle": 9}[it.Kind] {
			return nil, errf("line %d has %d coordinates: %q", i, len(it.X), l)
		}
		r = append(r, it)
	}
	return r, nil
}

type debugItem struct {
	Kind, Color string
	X           []float64
}

func (a debugItem) same(b debugItem) bool {
	if a.Kind != b.Kind || a.Color != b.Color || len(a.X) != len(b.X) {
		return false
	}
	for i := range a.X {
		if !(math.Abs(a.X[i]-b.X[i]) <= 0.000501) {
			return false
		}
	}
	return true
}

func checkDebug(c debugCase, r *fw.Rec) error {
	dir := tmpDir()
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "debug.txt")
	if c.Old != "-" {
		fw.Must(os.WriteFile(file, []byte(c.Old), 0644))
	}
	work := filepath.Join(dir, "work")
	fw.Must(os.MkdirAll(filepath.Join(work, "data"), 0755))
	on := c.Config == "on"
	if c.Config == "on" || c.Config == "off" {
		yes := []string{"true", "yes", "on", "True"}[c.Style]
		no := []string{"false", "no", "off", "False"}[c.Style]
		v := no
		if on {
			v = yes
		}
		text := "debug: " + v + "\ndebug_file: " + file + "\n"
		if c.Style == 1 {
			text = "debug_file: \"" + file + "\"\n\n# debugging\ndebug: " + v
		}
		fw.Must(os.WriteFile(filepath.Join(work, "data", "config.yaml"), []byte(text), 0644))
	} else if c.Config == "nofile" { // the file is named, whether to debug is left out
		fw.Must(os.WriteFile(filepath.Join(work, "data", "config.yaml"), []byte("debug_file: "+file+"\n"), 0644))
	}
	r.Tag("%s", c.Config)
	in := filepath.Join(dir, "case.json")
	b, err := json.Marshal(c)
	fw.Must(err)
	fw.Must(os.WriteFile(in, b, 0644))
	exe, err := os.Executable()
	fw.Must(err)
	cmd := exec.Command(exe, "-child", "debug", in, file)
	cmd.Dir = work
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	if err := cmd.Run(); err != nil {
		s := msg.String()
		fw.Assert(!strings.Contains(s, "HARNESS"), s)
		if k := strings.Index(s, "panic:"); k >= 0 {
			s = s[k:]
		}
		return errf("the process ended (%v): %s", err, s[:min(len(s), 1500)])
	}
	var after []string
	fw.Must(json.Unmarshal(out.Bytes(), &after))
	fw.Assert(len(after) == len(c.Ops), "child gave no answer")
	if !on {
		r.NT()
		for i, s := range after {
			if s != c.Old {
				return errf("debugging is off, but %s (call %d) left %q in the debug file, it held %q (\"-\": no file)", c.Ops[i].Op, i, s[:min(len(s), 200)], c.Old)
			}
		}
		for _, d := range []string{dir, work, filepath.Join(work, "data")} {
			es, err := os.ReadDir(d)
			fw.Must(err)
			for _, e := range es {
				switch e.Name() {
				case "case.json", "work", "data", "config.yaml", "planes.txt", "debug.txt":
				default:
					return errf("debugging is off, but the file %s was made", e.Name())
				}
			}
		}
		return nil
	}
	var want []debugItem
	prefix := c.Old // text before the items wanted
	if prefix == "-" {
		prefix = ""
	}
	add := func(kind string, col int, ps ...geo.V) {
		it := debugItem{Kind: kind, Color: debugNames[col]}
		for _, v := range ps {
			it.X = append(it.X, v.X, v.Y, v.Z)
		}
		want = append(want, it)
	}
	for i, o := range c.Ops {
		sliced := false
		switch o.Op {
		case "recreate":
			want, prefix = nil, ""
		case "line":
			add("line", o.Color, o.Paths[0]...)
		case "triangle", "points triangle":
			add("triangle", o.Color, o.Paths[0]...)
		case "path", "points", "layer":
			for _, q := range o.Paths {
				for k := 1; k < len(q); k++ {
					add("line", o.Color, q[k-1], q[k])
				}
			}
		default:
			sliced = true
		}
		s := after[i]
		if sliced && o.Op != "3axes" { // starts the file anew
			r.Tag("%s", o.Op)
			if s == "-" {
				return errf("debugging is on, but after slicing (%s, call %d) there is no debug file", o.Op, i)
			}
			got, err := readDebug(s)
			if err != nil {
				return errf("after slicing (%s, call %d): %v", o.Op, i, err)
			}
			r.Count("lines drawn by slicing", len(got))
			want, prefix = nil, s
			continue
		}
		if s == "-" {
			if len(want) > 0 || prefix != "" {
				return errf("after %s (call %d) there is no debug file", o.Op, i)
			}
			s = ""
		}
		if !strings.HasPrefix(s, prefix) {
			return errf("after %s (call %d) what was in the file is gone", o.Op, i)
		}
		got, err := readDebug(s[len(prefix):])
		if err != nil {
			return errf("after %s (call %d): %v", o.Op, i, err)
		}
		if sliced {
			if len(got) < len(want) {
				return errf("after slicing (%s, call %d) there are %d items of %d", o.Op, i, len(got), len(want))
			}
			want = append(want, got[len(want):]...)
		}
		if len(got) != len(want) {
			return errf("after %s (call %d) the file has %d items, %d were drawn", o.Op, i, len(got), len(want))
		}
		for k := range got {
			if !got[k].same(want[k]) {
				return errf("after %s (call %d) item %d of the file is %v, drawn was %v", o.Op, i, k, got[k], want[k])
			}
		}
		if len(want) > 0 {
			r.NT()
		}
	}
	return nil
}

func init() {
	fw.RegisterChild("debug", debugHistory)
	fw.Register(&fw.Prop{ID: "C36", Subs: []*fw.Sub{
		fw.S("histories", 1500, genDebug, checkDebug),
	}})
}
