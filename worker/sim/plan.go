package sim

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime/debug"
	"sort"
	"time"
)

// Plan decides one run completely: the run is a pure function of the plan and of the code under test.
type Plan struct {
	Prop string
	Seed uint64
	Body json.RawMessage
}

// Result is what a run reports.
type Result struct {
	Violation string `json:",omitempty"`
	Class     string `json:",omitempty"` // class of the violation, stable under minimisation
	Harness   string `json:",omitempty"`
	Hash      uint64 // of the event log
	Sched     uint64 // of the scheduling decisions
	State     uint64 // of the situation reached (scenario defined)
	Decisions uint64
	Switches  uint64
	Steps     uint64
	Sys       uint64
	SimNS     int64
	Worlds    int
	Stats     map[string]int `json:",omitempty"`
	Log       []string       `json:",omitempty"`
	Note      string         `json:",omitempty"` // what the run was about, for the evidence
}

func (r *Result) Fail(class, format string, args ...any) {
	if r.Violation == "" {
		r.Violation = fmt.Sprintf(format, args...)
		r.Class = class
	}
}

func (r *Result) add(w *World, o Outcome) {
	r.Hash = (r.Hash ^ o.LogHash) * 1099511628211
	r.Sched = (r.Sched ^ o.SchedHash) * 1099511628211
	r.Decisions += o.Decisions
	r.Switches += o.Switches
	r.Steps += o.Steps
	r.Sys += uint64(w.Sys)
	r.SimNS += int64(o.SimTime)
	r.Worlds++
	if r.Stats == nil {
		r.Stats = map[string]int{}
	}
	for k, v := range w.Stats {
		r.Stats[k] += v
	}
	if len(r.Log)+len(w.Log) < 6000 {
		r.Log = append(r.Log, w.Log...)
		r.Log = append(r.Log, "--")
	}
	if w.Harness != "" && r.Harness == "" {
		r.Harness = w.Harness
	}
	if w.Violation != "" {
		r.Fail("invariant", "%s", w.Violation)
	}
	if o.Deadlock {
		r.Harness = "the controller of the simulation deadlocked"
	}
}

func (r *Result) Count(name string, n int) {
	if r.Stats == nil {
		r.Stats = map[string]int{}
	}
	r.Stats[name] += n
}

func (r *Result) NoteState(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	r.State = (r.State ^ h.Sum64()) * 1099511628211
}

// Scenario is one property with its workload, oracle and shrinking.
type Scenario struct {
	Prop   string
	Gen    func(r *rand.Rand, tier string) any
	New    func() any // pointer to an empty body
	Exec   func(body any, res *Result)
	Shrink func(body any) []any // simpler candidates, most aggressive first
	Race   bool
	// Texts for the evidence.
	Rule string
	Real string
	Stub string
}

// Info describes a scenario to the driver.
type Info struct {
	Prop, Rule, Real, Stub string
	Race                   bool
}

func Describe(prop string) *Info {
	s := scenarios[prop]
	if s == nil {
		return nil
	}
	return &Info{Prop: s.Prop, Rule: s.Rule, Real: s.Real, Stub: s.Stub, Race: s.Race}
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Prop] = s }

func Scenarios() []string {
	var out []string
	for k := range scenarios {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func MakePlan(prop string, seed uint64, tier string) (*Plan, error) {
	s := scenarios[prop]
	if s == nil {
		return nil, fmt.Errorf("no scenario %s", prop)
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", prop, seed)
	r := rand.New(rand.NewPCG(h.Sum64(), seed))
	body := s.Gen(r, tier)
	data, err := json.Marshal(body)
	if err != nil {
		return nil, err
	}
	return &Plan{Prop: prop, Seed: seed, Body: data}, nil
}

func RunPlan(p *Plan) (res *Result) {
	res = &Result{Hash: 14695981039346656037, Sched: 14695981039346656037, Stats: map[string]int{}}
	s := scenarios[p.Prop]
	if s == nil {
		res.Harness = "no scenario " + p.Prop
		return res
	}
	body := s.New()
	if err := json.Unmarshal(p.Body, body); err != nil {
		res.Harness = err.Error()
		return res
	}
	defer func() {
		if r := recover(); r != nil {
			res.Harness = fmt.Sprintf("panic in the simulator: %v\n%s", r, debug.Stack())
		}
	}()
	s.Exec(body, res)
	return res
}

func ShrinkPlan(p *Plan) ([]*Plan, error) {
	s := scenarios[p.Prop]
	if s == nil || s.Shrink == nil {
		return nil, nil
	}
	body := s.New()
	if err := json.Unmarshal(p.Body, body); err != nil {
		return nil, err
	}
	var out []*Plan
	for _, c := range s.Shrink(body) {
		data, err := json.Marshal(c)
		if err != nil {
			return nil, err
		}
		if string(data) != string(p.Body) {
			out = append(out, &Plan{Prop: p.Prop, Seed: p.Seed, Body: data})
		}
	}
	return out, nil
}

// genSched draws a schedule.
func genSched(r *rand.Rand) Sched {
	s := Sched{Seed: r.Uint64(), Rand: r.Uint64() | 1, Limit: 1 << 40}
	switch r.IntN(10) {
	case 0, 1, 2:
		s.Policy = 0
	case 3, 4, 5:
		s.Policy, s.Param = 1, uint32(1+r.IntN(12))
	case 6, 7, 8:
		s.Policy, s.Param = 2, uint32(4+r.IntN(60))
	default:
		s.Policy = 3
	}
	switch r.IntN(4) {
	case 0:
		s.Yield = 0
	case 1:
		s.Yield = 255
	case 2:
		s.Yield = 31
	default:
		s.Yield = 7
	}
	s.SysGap = uint32([]int{0, 1, 2, 5}[r.IntN(4)])
	return s
}

// genBusySched draws a schedule that holds goroutines up in some runs.
func genBusySched(r *rand.Rand) Sched {
	s := genSched(r)
	if r.IntN(4) == 0 {
		s.Pause = pick(r, []uint32{15, 31, 63, 127, 255})
	}
	return s
}

func plainSched() Sched { return Sched{Seed: 1, Rand: 1, Policy: 3, Limit: 0} }

// shrinkSched proposes simpler schedules.
func shrinkSched(s Sched) []Sched {
	var out []Sched
	if s.Policy != 3 || s.Limit != 0 || s.Yield != 0 || s.SysGap != 0 || s.Pause != 0 {
		t := s
		t.Policy, t.Limit, t.Yield, t.SysGap, t.Param, t.Pause = 3, 0, 0, 0, 0, 0
		out = append(out, t)
	}
	if s.Yield != 0 {
		t := s
		t.Yield = 0
		out = append(out, t)
	}
	if s.Pause != 0 {
		t := s
		t.Pause = 0
		out = append(out, t)
	}
	if s.SysGap != 0 {
		t := s
		t.SysGap = 0
		out = append(out, t)
	}
	if s.Limit > 1<<20 {
		t := s
		t.Limit = 4096
		out = append(out, t)
	} else if s.Limit > 0 {
		for _, l := range []uint64{0, s.Limit / 2, s.Limit * 3 / 4, s.Limit - 1} {
			if l < s.Limit {
				t := s
				t.Limit = l
				out = append(out, t)
			}
		}
	}
	return out
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }
