package props

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/l1va/goosli/gcode"
	p "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"pgregory.net/rapid"
	"verif/harness/fw"
	"verif/harness/gen"
	"verif/harness/geo"
)

// ---- running the commands ----

type outcome struct {
	Code int
	Text string // both outputs
	Slow bool   // killed after a minute
}

// command runs one of the built commands in dir; limit > 0 bounds the size of the files it writes (in blocks of 512 bytes).
func command(dir string, limit int, name string, args ...string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	exe := filepath.Join(os.Getenv("VERIF_BIN"), name)
	c := exec.CommandContext(ctx, exe, args...)
	if limit >= 0 {
		c = exec.CommandContext(ctx, "/bin/dash", append([]string{"-c", fmt.Sprintf(`ulimit -f %d; exec "$@"`, limit), "sh", exe}, args...)...)
	}
	c.Dir = dir
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	o := outcome{Text: b.String(), Slow: ctx.Err() != nil}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		fw.Assert(ok, "cannot run "+name+": "+err.Error())
		o.Code = ee.ExitCode()
	}
	return o
}

func (o outcome) crashed() bool {
	for _, k := range []string{"panic:", "fatal error:", "goroutine ", "[signal "} {
		if strings.Contains(o.Text, k) {
			return true
		}
	}
	return o.Code < 0
}

func (o outcome) String() string {
	s := o.Text
	if len(s) > 1500 {
		s = s[:1500]
	}
	return fmt.Sprintf("status %d, output: %s", o.Code, s)
}

// succeeded and refused judge an outcome.
func (o outcome) succeeded() error {
	switch {
	case o.Slow:
		return errf("the command does not end")
	case o.crashed():
		return errf("the command crashed: %s", o)
	case o.Code != 0:
		return errf("the command failed: %s", o)
	}
	return nil
}

func (o outcome) refused(why string) error {
	switch {
	case o.Slow:
		return errf("%s: the command does not end", why)
	case o.crashed():
		return errf("%s: the command crashed: %s", why, o)
	case o.Code == 0:
		return errf("%s: the command reports success; %s", why, o)
	case !hasMessage(o.Text):
		return errf("%s: the command says nothing; %s", why, o)
	}
	return nil
}

// hasMessage tells whether something besides the notes every run prints is said.
func hasMessage(s string) bool {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.Contains(l, "yamlFile.Get") || strings.HasPrefix(l, "planes:") {
			continue
		}
		return true
	}
	return false
}

func ftoa(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

const repoData = "/repo/data"

// dataDir makes the folder of templates the commands need.
func dataDir(dir string, header, footer string) {
	d := filepath.Join(dir, "data")
	fw.Must(os.Mkdir(d, 0755))
	fw.Must(os.WriteFile(filepath.Join(d, "config.yaml"), []byte("debug: false\ndebug_file: "+filepath.Join(dir, "debug.txt")+"\n"), 0644))
	fw.Must(os.WriteFile(filepath.Join(d, "header_template.txt"), []byte(header), 0644))
	fw.Must(os.WriteFile(filepath.Join(d, "footer_template.txt"), []byte(footer), 0644))
}

func repoTemplate(name string) string {
	b, err := os.ReadFile(filepath.Join(repoData, name))
	fw.Must(err)
	return string(b)
}

// ---- C34 ----

type goosliCase struct {
	M      modesCase         `json:"m"`
	Opt    map[string]string `json:"opt"`
	Sup    bool              `json:"sup"`
	Header string            `json:"header"` // "" = the repository's
	Footer string            `json:"footer"`
	Short  bool              `json:"short"`
	Dflt   bool              `json:"dflt"` // default output and planes file
}

var goosliTypes = map[string]string{"3axes": "3axes", "5axes": "5axes", "profile": "5axes_by_profile", "vip": "vip", "vip planes": "vip"}

func drawTemplate(t *rapid.T, l string) string {
	var s strings.Builder
	for i := gen.I(t, l+".n", 1, 12); i > 0; i-- {
		s.WriteString(gen.Pick(t, l, "{layer_height}", "{wall_thickness}", "{fill_density}", "{bed_temperature}", "{extruder_temperature}",
			"{print_speed}", "{layer_count}", "{datetime}", "{layer_height}", "{layer_count}", "{print_time}", "\n", " ", ";", "G28", "100%", "{", "}", "%d", "\r\n", "°", "{nozzle}", "$1"))
	}
	return s.String()
}

func genGoosli(t *rapid.T) goosliCase {
	c := goosliCase{M: genModes(t), Opt: map[string]string{}}
	fl := func(name string, p float64, draw func() float64) {
		if gen.P(t, name+"?", p) {
			c.Opt[name] = ftoa(draw())
		}
	}
	in := func(name string, p float64, lo, hi int) {
		if gen.P(t, name+"?", p) {
			c.Opt[name] = strconv.Itoa(gen.I(t, name, lo, hi))
		}
	}
	for _, n := range []string{"originx", "originy", "originz"} {
		fl(n, 0.4, func() float64 { return gen.Nice(t, n, -60, 60, 2.5) })
	}
	for _, n := range []string{"rotcx", "rotcy", "rotcz"} {
		fl(n, 0.3, func() float64 { return gen.Nice(t, n, -60, 60, 2.5) })
	}
	fl("epsilon", 0.4, func() float64 { return gen.Pick(t, "epsilon", 10, 3, 0.5, 0) })
	fl("wall_thickness", 0.6, func() float64 { return gen.Nice(t, "wall_thickness", 0, 3, 0.4) })
	fl("line_width", 0.6, func() float64 { return gen.Nice(t, "line_width", 0.2, 1.2, 0.1) })
	fl("bar_diameter", 0.4, func() float64 { return gen.Pick(t, "bar_diameter", 1.75, 2.85, 3) })
	fl("flow", 0.4, func() float64 { return gen.Nice(t, "flow", 0.05, 1, 0.05) })
	fl("angle", 0.4, func() float64 { return gen.Nice(t, "angle", 0, 90, 5) })
	fl("normali", 0.2, func() float64 { return gen.Nice(t, "normali", -1, 1, 0.5) })
	fl("normalj", 0.2, func() float64 { return gen.Nice(t, "normalj", -1, 1, 0.5) })
	fl("normalk", 0.2, func() float64 { return gen.Nice(t, "normalk", 0.5, 2, 0.5) })
	fl("support_offset", 0.3, func() float64 { return gen.Nice(t, "support_offset", 0, 3, 0.5) })
	fl("retraction_distance", 0.4, func() float64 { return gen.Nice(t, "retraction_distance", 0, 6, 0.5) })
	in("retraction_speed", 0.4, 0, 4000)
	in("fill_density", 0.6, 0, 100)
	in("top_layers", 0.5, 0, 5)
	in("bottom_layers", 0.5, 0, 5)
	in("bed_temperature", 0.5, -5, 120)
	in("extruder_temperature", 0.5, 0, 300)
	in("print_speed", 0.6, 1, 200)
	in("print_speed_layer1", 0.6, 1, 200)
	in("print_speed_wall", 0.6, 1, 200)
	in("skirt_line_count", 0.5, 0, 6)
	for _, n := range []string{"fan_off_layer1", "retraction_on"} {
		if gen.P(t, n, 0.4) {
			c.Opt[n] = ""
		}
	}
	if gen.P(t, "filling_type?", 0.6) {
		c.Opt["filling_type"] = c.M.Type
	}
	c.Sup = gen.P(t, "sup", 0.15) && c.M.Mode == "3axes"
	if gen.P(t, "templates", 0.4) {
		c.Header, c.Footer = drawTemplate(t, "header"), drawTemplate(t, "footer")
	}
	c.Short = rapid.Bool().Draw(t, "short")
	c.Dflt = gen.P(t, "dflt", 0.3)
	return c
}

func (c goosliCase) f(name string, dflt float64) float64 {
	if s, ok := c.Opt[name]; ok {
		x, err := strconv.ParseFloat(s, 64)
		fw.Must(err)
		return x
	}
	return dflt
}

func (c goosliCase) i(name string, dflt int) int {
	if s, ok := c.Opt[name]; ok {
		x, err := strconv.Atoi(s)
		fw.Must(err)
		return x
	}
	return dflt
}

func (c goosliCase) on(name string) bool { _, ok := c.Opt[name]; return ok }

// settings are the ones the options describe.
func (c goosliCase) settings(layer float64, planes string) slicers.Settings {
	ft := "Lines"
	if s, ok := c.Opt["filling_type"]; ok {
		ft = s
	}
	lw := c.f("line_width", 0.4)
	return slicers.Settings{
		GcodeSettings: &gcode.GcodeSettings{
			BarDiameter: c.f("bar_diameter", 1.75), Flow: c.f("flow", 1), LayerHeight: layer, LineWidth: lw,
			FanOffLayer1: c.on("fan_off_layer1"), PrintSpeed: 60 * c.i("print_speed", 50), PrintSpeedLayer1: 60 * c.i("print_speed_layer1", 50),
			PrintSpeedWall: 60 * c.i("print_speed_wall", 50), Retraction: c.on("retraction_on"),
			RetractionSpeed: c.i("retraction_speed", 0), RetractionDistance: c.f("retraction_distance", 0),
		},
		Epsilon: c.f("epsilon", 10), LayerHeight: layer, WallThickness: c.f("wall_thickness", 1.2), FillDensity: c.i("fill_density", 20),
		BedTemperature: c.i("bed_temperature", 60), ExtruderTemperature: c.i("extruder_temperature", 200),
		RotationCenter: p.Point{X: c.f("rotcx", 0), Y: c.f("rotcy", 0), Z: c.f("rotcz", 0)},
		PlanesFile:     planes, FillingType: ft, ColorizedAngle: c.f("angle", 30),
		UnitVector: p.V(c.f("normali", 0), c.f("normalj", 0), c.f("normalk", 1)),
		SupportsOn: c.Sup, SupportOffset: c.f("support_offset", 1),
		TopLayers: c.i("top_layers", 3), BottomLayers: c.i("bottom_layers", 3), SkirtLineCount: c.i("skirt_line_count", 3),
	}
}

var placeholder = regexp.MustCompile(`\{[a-z_0-9]*\}`)

// filledIn is what becomes of a template, with a mark where the time goes.
func (c goosliCase) filledIn(tpl string, layer float64, layers int) string {
	return placeholder.ReplaceAllStringFunc(tpl, func(k string) string {
		switch k {
		case "{layer_height}":
			return fmt.Sprintf("%.3f", layer)
		case "{wall_thickness}":
			return fmt.Sprintf("%.3f", c.f("wall_thickness", 1.2))
		case "{fill_density}":
			return strconv.Itoa(c.i("fill_density", 20))
		case "{bed_temperature}":
			return strconv.Itoa(c.i("bed_temperature", 60))
		case "{extruder_temperature}":
			return strconv.Itoa(c.i("extruder_temperature", 200))
		case "{print_speed}":
			return strconv.Itoa(60 * c.i("print_speed", 50))
		case "{layer_count}":
			return strconv.Itoa(layers)
		}
		return k
	})
}

// follows reads text at the start of s; the marks for the time match a recent time.
func follows(s, text string, from, to time.Time) (string, error) {
	parts := strings.Split(text, "{datetime}")
	for i, q := range parts {
		if i > 0 {
			ok := false
			for d := from.Truncate(time.Minute); !d.After(to); d = d.Add(time.Minute) {
				if k := d.Format(time.RFC822); strings.HasPrefix(s, k) {
					s, ok = s[len(k):], true
					break
				}
			}
			if !ok {
				return s, errf("the time is not there: %q", head(s))
			}
		}
		if !strings.HasPrefix(s, q) {
			k := 0
			for k < len(q) && k < len(s) && q[k] == s[k] {
				k++
			}
			lo := max(0, k-80)
			return s, errf("differs at byte %d: ...%q instead of ...%q", k, s[lo:min(len(s), k+80)], q[lo:min(len(q), k+80)])
		}
		s = s[len(q):]
	}
	return s, nil
}

func head(s string) string { return s[:min(len(s), 120)] }

func checkGoosli(c goosliCase, r *fw.Rec) error {
	if c.M.Mode == "5axes" && len(c.M.build()) > 2500 {
		r.Excluded = "simplified at random"
		return nil
	}
	dir := tmpDir()
	defer os.RemoveAll(dir)
	header, footer := c.Header, c.Footer
	if header == "" {
		header, footer = repoTemplate("header_template.txt"), repoTemplate("footer_template.txt")
	}
	dataDir(dir, header, footer)
	stl := filepath.Join(dir, "model.stl")
	fw.Must(os.WriteFile(stl, stlBytes(coordsOf(c.M.build().Goosli())), 0644))
	before, err := os.ReadFile(stl)
	fw.Must(err)

	// what the library makes of it
	mesh, err := p.LoadSTL(stl)
	if err != nil {
		return errf("cannot load: %v", err)
	}
	lo, hi := mesh.MinMaxZ(p.AxisZ)
	layer := 0.2
	if len(mesh.Triangles) > 0 {
		layer = (hi - lo) / float64(c.M.N)
	}
	planes, outName := "planes_file.txt", "out.gcode"
	if !c.Dflt {
		planes, outName = "my planes.txt", "result.g"
	}
	origin := p.V(c.f("originx", 0), c.f("originy", 0), c.f("originz", 0))
	mesh.Shift(origin)
	if c.M.Mode == "vip planes" {
		var lines []string
		for _, q := range vip.Analyze(mesh, 30) {
			lines = append(lines, q.String())
		}
		if len(lines) == 0 {
			lines = append(lines, fmt.Sprintf("X0 Y0 Z%.3f Ttrue R30", (lo+hi)/2+origin.Z))
		}
		fw.Must(os.WriteFile(filepath.Join(dir, planes), []byte(strings.Join(lines, "\n")+"\n"), 0644))
	}

	var args []string
	add := func(long, short, val string) {
		if c.Short && short != "" && !strings.HasPrefix(val, "-") {
			args = append(args, "-"+short, val)
		} else {
			args = append(args, "--"+long+"="+val)
		}
	}
	add("stl", "s", stl)
	if !c.Dflt {
		add("gcode", "o", outName)
		add("planes_file", "", planes)
	}
	if !(c.Dflt && c.M.Mode == "vip") {
		add("slicing_type", "", goosliTypes[c.M.Mode])
	}
	add("layer_height", "t", ftoa(layer))
	short := map[string]string{"originx": "x", "originy": "y", "originz": "z", "epsilon": "e", "angle": "a", "normali": "i", "normalj": "j", "normalk": "k"}
	for _, k := range sortedKeys(c.Opt) {
		if k == "fan_off_layer1" || k == "retraction_on" {
			args = append(args, "--"+k)
			continue
		}
		add(k, short[k], c.Opt[k])
	}
	if c.Sup {
		args = append(args, "--supports_on")
	}
	t0 := time.Now()
	o := command(dir, -1, "goosli", args...)
	t1 := time.Now()
	if err := o.succeeded(); err != nil {
		return errf("goosli %v: %v", args, err)
	}
	r.Tag("%s", c.M.Mode)
	got, err := os.ReadFile(filepath.Join(dir, outName))
	if err != nil {
		return errf("no output file: %v", err)
	}
	set := c.settings(layer, filepath.Join(dir, planes))
	var g gcode.Gcode
	switch c.M.Mode {
	case "3axes":
		g = slicers.SliceByVectorToGcode(mesh, p.AxisZ, set)
	case "5axes":
		g = slicers.Slice5Axes(mesh, set)
	case "profile":
		g = slicers.SliceByProfile(mesh, set)
	default:
		g = vip.Slice(mesh, set)
	}
	layers := 0
	for _, x := range g.Cmds {
		if l, ok := x.(gcode.LayersMoving); ok {
			layers += len(l.Layers)
		}
	}
	if layers > 0 {
		r.NT()
	}
	rest, err := follows(string(got), c.filledIn(header, layer, layers), t0, t1)
	if err != nil {
		return errf("header: %v", err)
	}
	prog := output(g)
	rest, err = follows(rest, prog, t0, t1)
	if err != nil {
		return errf("program: %v", err)
	}
	rest, err = follows(rest, c.filledIn(footer, layer, layers), t0, t1)
	if err != nil {
		return errf("footer: %v", err)
	}
	if rest != "" {
		return errf("%d bytes after the footer: %q", len(rest), head(rest))
	}
	if c.Header == "" { // what the header is to carry, whatever the template looks like
		h := string(got[:len(got)-len(prog)])
		for _, w := range []string{fmt.Sprintf("M190 S%d", c.i("bed_temperature", 60)), fmt.Sprintf("M109 S%d", c.i("extruder_temperature", 200)),
			fmt.Sprintf("Layer height: %.3f", layer), fmt.Sprintf("Walls: %.3f", c.f("wall_thickness", 1.2)), fmt.Sprintf("Fill: %d%%", c.i("fill_density", 20)),
			fmt.Sprintf("G1 F%d\n", 60*c.i("print_speed", 50)), fmt.Sprintf(";LAYER_COUNT:%d\n", layers)} {
			if !strings.Contains(h, w) {
				return errf("the header does not carry %q", w)
			}
		}
	}
	// nothing else is touched
	after, err := os.ReadFile(stl)
	fw.Must(err)
	if !bytes.Equal(before, after) {
		return errf("the model file changed")
	}
	return nil
}

func sortedKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

func coordsOf(m *p.Mesh) [][9]float64 {
	r := make([][9]float64, len(m.Triangles))
	for i, t := range m.Triangles {
		r[i] = coords(t)
	}
	return r
}

// ---- faulty invocations of all commands ----

type badRun struct {
	Cmd   string   `json:"cmd"`
	Fault string   `json:"fault"`
	Type  string   `json:"type"`
	L     TriList  `json:"l"`
	Bytes []byte   `json:"bytes"`
	Cut   float64  `json:"cut"`
	Limit int      `json:"limit"`
	Which int      `json:"which"`
	Val   string   `json:"val"`
	Lines []string `json:"lines"`
}

var cliOutputs = map[string][]string{"goosli": {"gcode"}, "goosli_cutter": {"out1", "out2"}, "goosli_simplifier": {"out"}, "goosli_colorizer": {"out"}, "goosli_analyzer": {"out"}}

func genBadRun(cmds ...string) func(t *rapid.T) badRun {
	return func(t *rapid.T) badRun {
		c := badRun{Cmd: gen.Pick(t, "cmd", cmds...)}
		faults := []string{"missing", "directory", "cut", "cut", "bytes", "special", "no dir", "out dir", "full", "full", "limit", "limit", "no flag", "bad flag", "bad number", "surplus"}
		if c.Cmd == "goosli" {
			faults = append(faults, "type", "type", "no data", "no header", "no footer", "layer", "layer", "planes", "planes", "planes")
		}
		c.Fault = gen.Pick(t, "fault", faults...)
		c.Type = gen.Pick(t, "type", "3axes", "vip", "5axes", "5axes_by_profile")
		c.L = drawTriList(t, 6)
		if c.L.Fill > 300 {
			c.L.Fill = 300
		}
		switch c.Fault {
		case "bytes":
			b := drawBytes(t)
			c.Bytes = b.B
			switch b.Kind {
			case "binary":
				c.Bytes = stlBytes(b.L.tris())
			case "text", "tokens":
				c.Bytes = []byte(b.A)
			}
			for i, q := range b.Pos {
				if len(c.Bytes) > 0 {
					c.Bytes[q%len(c.Bytes)] = b.Val[i]
				}
			}
		case "special": // vertices that are no places
			c.L = TriList{}
			c.Cut = gen.U(t, "where")
			c.Val = gen.Pick(t, "val", "NaN", "+Inf", "-Inf", "3e38", "-3e38", "1e20")
		case "cut":
			c.Cut = gen.U(t, "cut")
		case "limit":
			c.Limit = gen.I(t, "limit", 0, 3)
		case "type":
			c.Val = gen.Pick(t, "val", "", "3axis", "VIP", "vip ", "5axes_by", "0")
		case "layer":
			c.Val = gen.Pick(t, "val", "0", "-0", "-0.2", "NaN", "-Inf", "-1e300")
		case "bad number":
			c.Val = gen.Pick(t, "val", "", "x", "0,2", "1e", "0x", "--", "1 2")
		case "planes":
			for i := gen.I(t, "good", 0, 2); i > 0; i-- {
				c.Lines = append(c.Lines, "X0.0 Y1.5 Z2 Ttrue R90")
			}
			bad := gen.Pick(t, "bad", "X", "X1", "X1 Y2", "X1 Y2 Z3", "X1 Y2 Z3 Ttrue", "hello", "X1,Y2,Z3,Ttrue,R0", "X1 Y2 Z3 R0", "G1 X3", "#")
			k := gen.I(t, "badat", 0, len(c.Lines))
			c.Lines = append(c.Lines[:k], append([]string{bad}, c.Lines[k:]...)...)
		}
		c.Which = gen.I(t, "which", 0, 20)
		return c
	}
}

// saneModel is a small closed model.
func saneModel() [][9]float64 {
	return coordsOf(boxMesh(geo.V{X: -3, Y: -2}, geo.V{X: 3, Y: 2, Z: 4}).Goosli())
}

func checkBadRun(c badRun, r *fw.Rec) error {
	dir := tmpDir()
	defer os.RemoveAll(dir)
	dataDir(dir, repoTemplate("header_template.txt"), repoTemplate("footer_template.txt"))
	stl := filepath.Join(dir, "model.stl")
	data := stlBytes(saneModel())
	r.Tag("%s %s", c.Cmd, c.Fault)
	r.NT()
	flags := map[string]string{"stl": stl}
	outs := cliOutputs[c.Cmd]
	for i, o := range outs {
		flags[o] = filepath.Join(dir, fmt.Sprintf("out%d", i))
	}
	if c.Cmd == "goosli" {
		flags["slicing_type"] = c.Type
	}
	numbers := map[string][]string{
		"goosli":        {"originx", "layer_height", "wall_thickness", "fill_density", "bed_temperature", "print_speed", "line_width", "flow", "skirt_line_count", "retraction_speed", "angle", "top_layers"},
		"goosli_cutter": {"pointx", "pointy", "pointz", "normali", "normalj", "normalk"}, "goosli_simplifier": {"triangles"},
		"goosli_colorizer": {"angle", "normali", "normalk"}, "goosli_analyzer": {"angle", "originx", "originz"},
	}[c.Cmd]
	limit := -1
	must := true // has to be refused
	why := c.Fault
	switch c.Fault {
	case "missing":
		flags["stl"] = filepath.Join(dir, "none.stl")
		data = nil
	case "directory":
		flags["stl"] = dir
	case "cut":
		data = stlBytes(c.L.tris())
		data = data[:int(c.Cut*float64(len(data)))]
		why = fmt.Sprintf("model file cut to %d bytes", len(data))
	case "bytes":
		data = c.Bytes
		fw.Must(os.WriteFile(stl, data, 0644))
		_, err := p.LoadSTL(stl)
		must = err != nil
		why = "model file of drawn bytes"
	case "special":
		ts := saneModel()
		x, err := strconv.ParseFloat(c.Val, 64)
		fw.Must(err)
		k := int(c.Cut * float64(9*len(ts)-1))
		ts[k/9][k%9] = float64(float32(x))
		data = stlBytes(ts)
		must = false
		why = "model with a coordinate " + c.Val
	case "no dir":
		flags[outs[c.Which%len(outs)]] = filepath.Join(dir, "no", "out")
	case "out dir":
		flags[outs[c.Which%len(outs)]] = dir
	case "full":
		flags[outs[c.Which%len(outs)]] = "/dev/full"
	case "limit":
		limit = c.Limit
		must = limit == 0
		if limit > 0 && c.Cmd != "goosli" && c.Cmd != "goosli_analyzer" {
			// enough triangles
			var m [][9]float64
			for len(m) < 200 {
				m = append(m, saneModel()...)
			}
			if c.Cmd == "goosli_colorizer" {
				for len(m) < 2000 {
					m = append(m, m...)
				}
			}
			data = stlBytes(m)
			must = c.Cmd != "goosli_simplifier"
		}
		if c.Cmd == "goosli" {
			must = true
		}
	case "no flag":
		delete(flags, "stl")
	case "bad flag":
		flags["no_such_flag"] = "1"
	case "bad number":
		flags[numbers[c.Which%len(numbers)]] = c.Val
	case "surplus":
		flags[""] = "more"
	case "type":
		flags["slicing_type"] = c.Val
	case "no data":
		fw.Must(os.RemoveAll(filepath.Join(dir, "data")))
	case "no header":
		fw.Must(os.Remove(filepath.Join(dir, "data", "header_template.txt")))
	case "no footer":
		fw.Must(os.Remove(filepath.Join(dir, "data", "footer_template.txt")))
	case "layer":
		flags["layer_height"] = c.Val
		why = "layer height " + c.Val
	case "planes":
		flags["slicing_type"] = "vip"
		f := filepath.Join(dir, "planes.txt")
		flags["planes_file"] = f
		fw.Must(os.WriteFile(f, []byte(strings.Join(c.Lines, "\n")+"\n"), 0644))
		why = fmt.Sprintf("planes file %q", c.Lines)
	}
	if c.Cmd == "goosli_analyzer" && (c.Fault == "full" || c.Fault == "limit") { // something to suggest
		data = stlBytes(coordsOf(append(boxMesh(geo.V{X: -1, Y: -1}, geo.V{X: 1, Y: 1, Z: 5}), boxMesh(geo.V{X: -4, Y: -4, Z: 5}, geo.V{X: 4, Y: 4, Z: 8})...).Goosli()))
		fw.Must(os.WriteFile(stl, data, 0644))
		mesh, err := p.LoadSTL(stl)
		fw.Must(err)
		must = limit <= 0 && len(vip.Analyze(mesh, 30)) > 0
	}
	if c.Fault != "missing" {
		fw.Must(os.WriteFile(stl, data, 0644))
	}
	var args []string
	for _, k := range sortedKeys(flags) {
		if k == "" {
			args = append(args, flags[k])
			continue
		}
		args = append(args, "--"+k+"="+flags[k])
	}
	o := command(dir, limit, c.Cmd, args...)
	why = fmt.Sprintf("%s (%s)", c.Cmd, why)
	if must {
		if err := o.refused(why); err != nil {
			return errf("%v; arguments %v", err, args)
		}
	} else if o.Code == 0 {
		if err := o.succeeded(); err != nil {
			return errf("%s: %v", why, err)
		}
	} else if err := o.refused(why); err != nil {
		return err
	}
	if c.Fault != "missing" {
		b, err := os.ReadFile(stl)
		fw.Must(err)
		if !bytes.Equal(b, data) {
			return errf("%s: the model file changed", why)
		}
	}
	return nil
}

var _ = math.Pi

func init() {
	fw.Register(&fw.Prop{ID: "C34", Termination: true, Subs: []*fw.Sub{
		fw.S("options", 500, genGoosli, checkGoosli),
		fw.S("faults", 500, genBadRun("goosli"), checkBadRun),
	}})
}
