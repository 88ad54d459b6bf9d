// Package fw is the small framework every check runs in: rapid generates and
// shrinks cases, each case is a JSON value, the oracle is a pure function of the
// case, a failing case is written out and can be replayed without rapid.
package fw

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Rec collects what one evaluation of a case covered.
type Rec struct {
	Tags       map[string]int
	NonTrivial bool
	Excluded   string // case lies outside the stated domain; counted, not judged
	Known      map[string]int
	Note       string
}

func (r *Rec) Tag(f string, a ...any) {
	if r.Tags == nil {
		r.Tags = map[string]int{}
	}
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	r.Tags[f] = 1
}

// Count adds n to a counter of this evaluation (points probed, triangles sliced...).
func (r *Rec) Count(name string, n int) {
	if r.Tags == nil {
		r.Tags = map[string]int{}
	}
	r.Tags["#"+name] += n
}

func (r *Rec) NT() { r.NonTrivial = true }

// KnownFinding notes that the case shows a listed known finding.
func (r *Rec) KnownFinding(id string) {
	if r.Known == nil {
		r.Known = map[string]int{}
	}
	r.Known[id]++
}

// Sub is one executable statement: a generator of cases and an oracle.
type Sub struct {
	Name  string
	Quick int // cases in the quick tier, all shards together
	Mult  int // thorough = Quick*Mult (default 30)
	Gen   func(t *rapid.T) any
	New   func() any
	Check func(c any, r *Rec) error
	// SlowCase is true when one case may legitimately take long.
	Procs int // GOMAXPROCS override (0 = leave)
}

type Prop struct {
	ID   string
	Rule string
	Subs []*Sub
	// Termination: not finishing within the CPU budget is itself the violation.
	Termination bool
	Assumptions []string
}

var registry = map[string]*Prop{}

func Register(p *Prop) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

func Get(id string) *Prop { return registry[id] }

func IDs() []string {
	var r []string
	for k := range registry {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// S builds a Sub from typed functions.
func S[C any](name string, quick int, gen func(t *rapid.T) C, check func(c C, r *Rec) error) *Sub {
	return &Sub{
		Name: name, Quick: quick,
		Gen: func(t *rapid.T) any { c := gen(t); return &c },
		New: func() any { return new(C) },
		Check: func(c any, r *Rec) error {
			return check(*(c.(*C)), r)
		},
	}
}

func (s *Sub) WithMult(m int) *Sub { s.Mult = m; return s }

// Stored is the on-disk form of a case.
type Stored struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Detail   string          `json:"detail,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// Result is what one shard reports.
type Result struct {
	Property    string            `json:"property"`
	Evaluations int               `json:"evaluations"`
	Excluded    map[string]int    `json:"excluded"`
	Tags        map[string]int    `json:"tags"`
	Hashes      []uint64          `json:"hashes"`
	Samples     []json.RawMessage `json:"samples"`
	PerSub      map[string]int    `json:"per_sub"`
	Known       map[string]int    `json:"known"`
	Failure     *Stored           `json:"failure,omitempty"`
	First       *Stored           `json:"first,omitempty"`
	Flaky       bool              `json:"flaky"`
	Err         string            `json:"err,omitempty"`
}

type runner struct {
	p       *Prop
	res     *Result
	current string
	seen    map[uint64]bool
	curSub  string
	nsample map[string]int
}

type panicErr struct{ msg string }

func (e panicErr) Error() string { return e.msg }

// safeCheck runs the oracle, mapping a panic to an error.
func safeCheck(s *Sub, c any, r *Rec) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if re, ok := p.(error); ok {
				var he HarnessError
				if errors.As(re, &he) {
					panic(p)
				}
			}
			st := string(debug.Stack())
			err = panicErr{fmt.Sprintf("panic: %v\n%s", p, trimStack(st))}
		}
	}()
	return s.Check(c, r)
}

// HarnessError is a failure of the machinery itself, never a violation.
type HarnessError struct{ Msg string }

func (h HarnessError) Error() string { return "HARNESS: " + h.Msg }

// Must panics with a HarnessError.
func Must(err error) {
	if err != nil {
		panic(HarnessError{err.Error()})
	}
}
func Assert(ok bool, f string, a ...any) {
	if !ok {
		panic(HarnessError{fmt.Sprintf(f, a...)})
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "simplify") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type tbStop struct{}

type tb struct {
	failed bool
	msgs   []string
}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return "verif" }
func (t *tb) Logf(f string, a ...any) {
	if len(t.msgs) < 50 {
		t.msgs = append(t.msgs, fmt.Sprintf(f, a...))
	}
}
func (t *tb) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *tb) Skip(a ...any)             { panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.failed = true; t.Log(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func hash(b []byte) uint64 {
	h := sha256.Sum256(b)
	return binary.LittleEndian.Uint64(h[:8])
}

func (rn *runner) store(s *Sub, c any, detail string) *Stored {
	raw, err := json.Marshal(c)
	Must(err)
	return &Stored{Property: rn.p.ID, Sub: s.Name, Detail: detail, Case: raw}
}

func (rn *runner) eval(s *Sub, c any, shrinking bool) error {
	st := rn.store(s, c, "")
	if rn.current != "" {
		b, _ := json.Marshal(st)
		Must(os.WriteFile(rn.current, b, 0644))
	}
	r := &Rec{}
	began := time.Now()
	err := safeCheck(s, c, r)
	if f := os.Getenv("VERIF_SLOW"); f != "" && time.Since(began) > time.Second { // development aid
		if w, e := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); e == nil {
			fmt.Fprintf(w, "%.1f %s %s\n", time.Since(began).Seconds(), s.Name, st.Case)
			w.Close()
		}
	}
	if shrinking {
		return err
	}
	rn.res.Evaluations++
	rn.res.PerSub[s.Name]++
	for k, n := range r.Tags {
		rn.res.Tags[s.Name+"/"+k] += n
	}
	for k, n := range r.Known {
		rn.res.Known[k] += n
	}
	if r.Excluded != "" {
		rn.res.Excluded[s.Name+"/"+r.Excluded]++
		return err
	}
	if r.NonTrivial && err == nil {
		h := hash(append([]byte(s.Name+"|"), st.Case...))
		if !rn.seen[h] {
			rn.seen[h] = true
			rn.res.Hashes = append(rn.res.Hashes, h)
			if rn.nsample[s.Name] < 2 && len(st.Case) < 3000 {
				rn.nsample[s.Name]++
				b, _ := json.Marshal(map[string]any{"sub": s.Name, "case": st.Case, "covered": tagList(r.Tags), "note": r.Note})
				rn.res.Samples = append(rn.res.Samples, b)
			}
		}
	}
	return err
}

func tagList(m map[string]int) []string {
	var r []string
	for k, n := range m {
		if k[0] == '#' {
			r = append(r, fmt.Sprintf("%s=%d", k[1:], n))
		} else {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// runSub searches one statement; returns true when it found a failure.
func (rn *runner) runSub(s *Sub, checks int, seed uint64, shrink time.Duration) bool {
	if checks <= 0 {
		return false
	}
	Must(flag.Set("rapid.checks", fmt.Sprint(checks)))
	Must(flag.Set("rapid.seed", fmt.Sprint(seed)))
	Must(flag.Set("rapid.nofailfile", "true"))
	Must(flag.Set("rapid.shrinktime", shrink.String()))
	t := &tb{}
	failing := false
	var harness error
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbStop); !ok {
					panic(p)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			c := s.Gen(rt)
			defer func() {
				if p := recover(); p != nil {
					if he, ok := p.(HarnessError); ok {
						harness = he
						rn.res.First = rn.store(s, c, he.Msg)
					}
					panic(p)
				}
			}()
			err := rn.eval(s, c, failing)
			if err != nil {
				st := rn.store(s, c, err.Error())
				if !failing {
					rn.res.First = st
					failing = true
				}
				rn.res.Failure = st
				rt.Fatalf("violation")
			}
		})
	}()
	if harness != nil {
		rn.res.Err = harness.Error()
		rn.res.Failure = nil
		return true
	}
	if failing {
		return true
	}
	if t.failed {
		rn.res.Err = "generator: " + strings.Join(t.msgs, "; ")
		return true
	}
	return false
}

// Options of a run.
type Options struct {
	ID       string
	Seed     uint64
	Shard    int
	Shards   int
	Thorough bool
	Scale    float64
	Out      string
	Current  string
	Only     string
	Shrink   time.Duration
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func writeResult(path string, r *Result) {
	b, err := json.Marshal(r)
	Must(err)
	Must(os.WriteFile(path, b, 0644))
}

// memGuard ends the process when the heap explodes (an error exit, not a verdict).
func memGuard(limit uint64) {
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(300 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > limit {
				fmt.Fprintln(os.Stderr, "VERIF-MEMGUARD: heap over limit")
				os.Exit(77)
			}
		}
	}()
}

// Run executes one shard.
func Run(o Options) {
	p := Get(o.ID)
	Assert(p != nil, "unknown property %s", o.ID)
	memGuard(3 << 30)
	res := &Result{Property: o.ID, Tags: map[string]int{}, PerSub: map[string]int{}, Excluded: map[string]int{}, Known: map[string]int{}}
	rn := &runner{p: p, res: res, current: o.Current, seen: map[uint64]bool{}, nsample: map[string]int{}}
	for i, s := range p.Subs {
		if o.Only != "" && o.Only != s.Name {
			continue
		}
		n := float64(s.Quick)
		if o.Thorough {
			m := s.Mult
			if m == 0 {
				m = 30
			}
			n *= float64(m)
		}
		if o.Scale > 0 {
			n *= o.Scale
		}
		per := int(n)/o.Shards + 1
		if int(n) == 0 {
			continue
		}
		if s.Quick < o.Shards && !o.Thorough { // fewer cases than shards
			per = 0
			if o.Shard < s.Quick {
				per = 1
			}
		}
		seed := splitmix(o.Seed*1000003+uint64(o.Shard)*7919+uint64(i)*104729) | 1
		if rn.runSub(s, per, seed, o.Shrink) {
			break
		}
	}
	if res.Failure != nil && res.Err == "" {
		// decide with the plain oracle, outside rapid, whether it reproduces
		ok := false
		for _, cand := range []*Stored{res.Failure, res.First} {
			if cand == nil {
				continue
			}
			for k := 0; k < 5 && !ok; k++ {
				if err := replay(p, cand); err != nil {
					cand.Detail = err.Error()
					res.Failure = cand
					ok = true
				}
			}
			if ok {
				break
			}
		}
		res.Flaky = !ok
	}
	writeResult(o.Out, res)
}

func replay(p *Prop, st *Stored) error {
	for _, s := range p.Subs {
		if s.Name != st.Sub {
			continue
		}
		c := s.New()
		Must(json.Unmarshal(st.Case, c))
		return safeCheck(s, c, &Rec{})
	}
	panic(HarnessError{"replay: no sub " + st.Sub})
}

// Replay runs the oracle on a stored case. Exit 0 = holds, 1 = violated, 2 = error.
func Replay(path string, times int) int {
	memGuard(3 << 30)
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var st Stored
	if err := json.Unmarshal(b, &st); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	p := Get(st.Property)
	if p == nil {
		fmt.Println("ERROR unknown property", st.Property)
		return 2
	}
	for i := 0; i < times; i++ {
		if err := replay(p, &st); err != nil {
			fmt.Fprintf(realStdout, "REPLAY-VIOLATION property=%s sub=%s\n%s\n", st.Property, st.Sub, err)
			return 1
		}
	}
	fmt.Fprintf(realStdout, "REPLAY-OK property=%s sub=%s\n", st.Property, st.Sub)
	return 0
}

var realStdout io.Writer = os.Stdout

// SetStdout sets where verdict lines go while the code under test prints.
func SetStdout(w io.Writer) { realStdout = w }

var children = map[string]func(args []string){}

// RegisterChild names work that is done in a process of its own (see Spawn in props).
func RegisterChild(name string, f func(args []string)) { children[name] = f }

// Child runs registered work.
func Child(name string, args []string) {
	f, ok := children[name]
	Assert(ok, "no child "+name)
	f(args)
}
