// Command dst drives the deterministic simulation: it builds the simulator from the working tree of the repository,
// runs seeds in parallel worker processes, minimises what fails and writes evidence.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Plan struct {
	Prop string
	Seed uint64
	Body json.RawMessage
}

type Result struct {
	Violation string
	Class     string
	Harness   string
	Hash      uint64
	Sched     uint64
	State     uint64
	Decisions uint64
	Switches  uint64
	Steps     uint64
	Sys       uint64
	SimNS     int64
	Worlds    int
	Stats     map[string]int
	Log       []string
	Note      string
}

type Info struct {
	Prop, Rule, Real, Stub string
	Race                   bool
}

type request struct {
	Op    string
	Prop  string
	Tier  string
	Seed  uint64
	Count int
	Until int64
	Plan  *Plan
	Log   bool
}

type response struct {
	Kind   string
	Seed   uint64
	Result *Result
	Plan   *Plan
	Plans  []*Plan
	Error  string
	Names  []string
	Info   *Info
	RSS    uint64
}

// ---- worker processes ----

type worker struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
	errMu  *sync.Mutex
	dead   bool
}

type lockedBuf struct {
	mu *sync.Mutex
	b  *bytes.Buffer
}

func (l lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func startWorker(bin string) (*worker, error) {
	cmd := exec.Command(bin)
	cmd.Dir = "/"
	cmd.Env = []string{"TZ=UTC", "HOME=/root", "PATH=/usr/bin:/bin", "GOMAXPROCS=1", "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 history_size=3"}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w := &worker{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20), stderr: &bytes.Buffer{}, errMu: &sync.Mutex{}}
	cmd.Stderr = lockedBuf{w.errMu, w.stderr}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return w, nil
}

func (w *worker) close() {
	if w == nil || w.cmd == nil {
		return
	}
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func (w *worker) errText() string {
	w.errMu.Lock()
	defer w.errMu.Unlock()
	return w.stderr.String()
}

func (w *worker) send(q *request) error {
	data, err := json.Marshal(q)
	if err != nil {
		return err
	}
	_, err = w.in.Write(append(data, '\n'))
	return err
}

var errTimeout = errors.New("no answer")

func (w *worker) recv(limit time.Duration) (*response, error) {
	t := time.AfterFunc(limit, func() {
		w.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(300 * time.Millisecond)
		w.cmd.Process.Kill()
	})
	line, err := w.out.ReadBytes('\n')
	if !t.Stop() {
		w.dead = true
		w.cmd.Wait()
		return nil, errTimeout
	}
	if err != nil {
		w.dead = true
		w.cmd.Wait()
		return nil, err
	}
	var r response
	if err := json.Unmarshal(line, &r); err != nil {
		return nil, fmt.Errorf("bad answer of the worker: %w", err)
	}
	return &r, nil
}

var slotRx = regexp.MustCompile(`/zz_dst/p[0-9]+`)

// death turns the end of a worker process into a result. Only an end brought about by code of webrpc (its frames are
// in the stack of the failing goroutine) is a violation; everything else is trouble of the simulator.
func death(w *worker, err error) *Result {
	text := w.errText()
	res := &Result{}
	if strings.Contains(text, "WARNING: DATA RACE") {
		res.Class = "race"
		res.Violation = "data race: " + trim(raceSummary(text), 1500)
		if !slotRx.MatchString(text) {
			res.Harness = "data race outside webrpc: " + trim(text, 3000)
		}
		return res
	}
	first := ""
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			first = l
			break
		}
	}
	if errors.Is(err, errTimeout) {
		first = "no end within the wall clock limit"
	}
	// the first goroutine listed is the failing one
	stack := text
	if i := strings.Index(text, "\ngoroutine "); i >= 0 {
		stack = text[i+1:]
		if j := strings.Index(stack, "\n\n"); j >= 0 && !errors.Is(err, errTimeout) {
			stack = stack[:j]
		}
	}
	var frames []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "zz_dst/p") && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "created by") {
			f := slotRx.ReplaceAllString(l, "")
			f = strings.TrimPrefix(f, "github.com/webrpc/")
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			frames = append(frames, f)
			if len(frames) == 6 {
				break
			}
		}
	}
	if len(frames) == 0 || first == "" {
		res.Harness = fmt.Sprintf("worker process ended (%v): %s", w.cmd.ProcessState, trim(text, 4000))
		return res
	}
	res.Class = "process-death"
	if errors.Is(err, errTimeout) {
		res.Class = "hang"
	}
	res.Violation = fmt.Sprintf("the process died: %s; in %s", first, strings.Join(frames, " < "))
	return res
}

func raceSummary(text string) string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous") {
			out = append(out, strings.Fields(t)[0]+" "+strings.Fields(t)[1])
		}
		if strings.HasPrefix(t, "github.com/webrpc/webrpc/zz_dst/p") && len(out) > 0 {
			out = append(out, strings.TrimPrefix(slotRx.ReplaceAllString(t, ""), "github.com/webrpc/"))
		}
		if strings.HasPrefix(t, "Goroutine") {
			break
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "; ")
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// runPlan executes one plan in the given worker, which is started when needed.
func runPlan(wp **worker, bin string, p *Plan, log bool, limit time.Duration) (*Result, error) {
	if *wp == nil || (*wp).dead {
		w, err := startWorker(bin)
		if err != nil {
			return nil, err
		}
		*wp = w
	}
	w := *wp
	if err := w.send(&request{Op: "runplan", Plan: p, Log: log}); err != nil {
		return nil, err
	}
	for {
		r, err := w.recv(limit)
		if err != nil {
			res := death(w, err)
			return res, nil
		}
		switch r.Kind {
		case "result":
			return r.Result, nil
		case "error":
			return nil, errors.New(r.Error)
		}
	}
}

// ---- check ----

type checkRun struct {
	prop, tier string
	seed       uint64
	bins       []string // plain, race
	info       *Info

	mu        sync.Mutex
	next      []uint64
	deadline  time.Time
	runs      []int
	stats     map[string]int
	hashes    map[uint64]bool
	scheds    map[uint64]bool
	states    map[uint64]bool
	nontriv   map[uint64]bool
	decisions uint64
	switches  uint64
	steps     uint64
	sys       uint64
	simNS     float64
	worlds    int
	samples   []any
	firstHash map[uint64]uint64
	found     []found
	known     []knownFinding
	knownSeen int
	harness   []string
	stop      bool
	restarts  int
	detOK     int
	detBad    []string
}

type found struct {
	seed uint64
	bin  int
	res  *Result
}

const chunk = 20

func isFault(k string) bool {
	return strings.HasPrefix(k, "fault.") || strings.HasPrefix(k, "net.") || strings.HasPrefix(k, "event.") || strings.HasPrefix(k, "clock.") || strings.HasPrefix(k, "damage.") || k == "crash" || k == "kill"
}

func (c *checkRun) absorb(bin int, seed uint64, r *Result) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.runs[bin]++
	nf := 0
	for k, v := range r.Stats {
		c.stats[k] += v
		if isFault(k) {
			nf += v
		}
	}
	c.decisions += r.Decisions
	c.switches += r.Switches
	c.steps += r.Steps
	c.sys += r.Sys
	c.simNS += float64(r.SimNS)
	c.worlds += r.Worlds
	c.hashes[r.Hash] = true
	c.scheds[r.Sched] = true
	c.states[r.State] = true
	if nf > 0 || r.Decisions > 1 {
		c.nontriv[r.Hash^r.Sched*3^r.State*7] = true
	}
	if bin == 0 {
		if old, ok := c.firstHash[seed]; ok {
			if old != r.Hash^r.Sched*3 {
				c.detBad = append(c.detBad, fmt.Sprintf("seed %d", seed))
			} else {
				c.detOK++
			}
		} else {
			c.firstHash[seed] = r.Hash ^ r.Sched*3
		}
	}
	if len(c.samples) < 4 && nf > 0 && r.Note != "" {
		c.samples = append(c.samples, map[string]any{"seed": seed, "case": r.Note, "faults": faultsOf(r.Stats), "scheduling_decisions": r.Decisions, "system_calls": r.Sys, "simulated_ms": r.SimNS / 1e6, "event_hash": fmt.Sprintf("%016x", r.Hash)})
	}
	if r.Harness != "" {
		c.harness = append(c.harness, fmt.Sprintf("seed %d: %s", seed, r.Harness))
		if len(c.harness) > 3 {
			c.stop = true
		}
	}
	if r.Violation != "" && r.Harness == "" && isKnown(c.known, c.prop, r) {
		c.knownSeen++
	} else if r.Violation != "" && r.Harness == "" {
		c.found = append(c.found, found{seed, bin, r})
		if len(c.found) >= 12 {
			c.stop = true
		}
	}
}

func faultsOf(m map[string]int) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		if isFault(k) {
			o[k] = v
		}
	}
	return o
}

func (c *checkRun) take(bin int) (uint64, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.stop || time.Now().After(c.deadline) {
		return 0, false
	}
	s := c.next[bin]
	c.next[bin] += chunk
	return s, true
}

func (c *checkRun) loop(bin int) {
	var w *worker
	defer func() { w.close() }()
	for {
		s, ok := c.take(bin)
		if !ok {
			return
		}
		end := s + chunk
		for s < end {
			if w == nil || w.dead {
				var err error
				if w, err = startWorker(c.bins[bin]); err != nil {
					c.mu.Lock()
					c.harness = append(c.harness, err.Error())
					c.stop = true
					c.mu.Unlock()
					return
				}
				c.mu.Lock()
				c.restarts++
				c.mu.Unlock()
			}
			w.send(&request{Op: "run", Prop: c.prop, Tier: c.tier, Seed: s, Count: int(end - s), Until: c.deadline.UnixMilli()})
			cur := s
			for {
				r, err := w.recv(90 * time.Second)
				if err != nil {
					c.absorb(bin, cur, death(w, err))
					s = cur + 1
					break
				}
				if r.Kind == "start" {
					cur = r.Seed
				} else if r.Kind == "result" {
					c.absorb(bin, r.Seed, r.Result)
				} else if r.Kind == "error" {
					c.absorb(bin, cur, &Result{Harness: r.Error})
					s = end
					break
				} else if r.Kind == "done" {
					s = end
					if r.RSS > 1200<<20 {
						w.close()
						w = nil
					}
					break
				}
			}
		}
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Class    string `json:"class,omitempty"`
	Match    string `json:"match,omitempty"` // regular expression on the text of the violation
}

func loadKnown(verif string) ([]knownFinding, error) {
	data, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []knownFinding
	for _, l := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(l, "known:") // other lines are comments and repaired findings
		if !ok {
			continue
		}
		k := knownFinding{Status: "known"}
		if err := json.Unmarshal([]byte(rest), &k); err != nil {
			return nil, err
		}
		out = append(out, k)
	}
	return out, nil
}

func isKnown(ks []knownFinding, prop string, r *Result) bool {
	for _, k := range ks {
		if k.Status == "known" && k.Property == prop && (k.Class == "" || k.Class == r.Class) && k.Match != "" {
			if ok, _ := regexp.MatchString(k.Match, r.Violation); ok {
				return true
			}
		}
	}
	return false
}

type replayFile struct {
	Property  string
	Seed      uint64
	Tier      string
	Race      bool
	Class     string
	Violation string
	EventHash string
	Minimised string
	Plan      *Plan
	Trace     []string
}

func getPlan(bin, prop, tier string, seed uint64) (*Plan, *Info, error) {
	w, err := startWorker(bin)
	if err != nil {
		return nil, nil, err
	}
	defer w.close()
	w.send(&request{Op: "info", Prop: prop})
	r, err := w.recv(60 * time.Second)
	if err != nil {
		return nil, nil, fmt.Errorf("worker: %w %s", err, trim(w.errText(), 2000))
	}
	info := r.Info
	if info == nil {
		return nil, nil, fmt.Errorf("no scenario for %s", prop)
	}
	w.send(&request{Op: "plan", Prop: prop, Tier: tier, Seed: seed})
	r, err = w.recv(60 * time.Second)
	if err != nil {
		return nil, nil, fmt.Errorf("worker: %w %s", err, trim(w.errText(), 2000))
	}
	if r.Kind != "plan" {
		return nil, nil, errors.New(r.Error)
	}
	return r.Plan, info, nil
}

func shrinkOf(bin string, p *Plan) []*Plan {
	w, err := startWorker(bin)
	if err != nil {
		return nil
	}
	defer w.close()
	w.send(&request{Op: "shrink", Plan: p})
	r, err := w.recv(60 * time.Second)
	if err != nil || r.Kind != "shrink" {
		return nil
	}
	return r.Plans
}

// minimise looks for a simpler plan with a violation of the same class.
func minimise(bin string, p *Plan, res *Result, budget time.Duration) (*Plan, *Result, int, int) {
	deadline := time.Now().Add(budget)
	tried, adopted := 0, 0
	const par = 8
	ws := make([]*worker, par)
	defer func() {
		for _, w := range ws {
			w.close()
		}
	}()
	seen := map[string]bool{}
	for time.Now().Before(deadline) {
		cands := shrinkOf(bin, p)
		var todo []*Plan
		for _, c := range cands {
			k := string(c.Body)
			if !seen[k] {
				seen[k] = true
				todo = append(todo, c)
			}
		}
		progress := false
		for i := 0; i < len(todo) && !progress && time.Now().Before(deadline); i += par {
			n := min(par, len(todo)-i)
			rs := make([]*Result, n)
			var wg sync.WaitGroup
			for j := 0; j < n; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					r, err := runPlan(&ws[j], bin, todo[i+j], false, 30*time.Second)
					if err == nil {
						rs[j] = r
					}
				}()
			}
			wg.Wait()
			tried += n
			for j := 0; j < n; j++ {
				if rs[j] != nil && rs[j].Violation != "" && rs[j].Harness == "" && rs[j].Class == res.Class {
					// What counts is that a fresh process, as the replay is one, shows it as well.
					var w *worker
					r, err := runPlan(&w, bin, todo[i+j], false, 30*time.Second)
					w.close()
					if err != nil || r.Violation == "" || r.Harness != "" || r.Class != res.Class {
						continue
					}
					p, res = todo[i+j], r
					progress = true
					adopted++
					break
				}
			}
		}
		if !progress {
			break
		}
	}
	return p, res, tried, adopted
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func check(repo, verif, prop string) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	begin := time.Now()
	fail := func(format string, args ...any) int {
		fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
		return 2
	}
	bin, meta, err := buildWorker(repo, verif, false)
	if err != nil {
		return fail("%v", err)
	}
	base := uint64(seed) * 1_000_000_000
	_, info, err := getPlan(bin, prop, tier, base)
	if err != nil {
		return fail("%v", err)
	}
	c := &checkRun{prop: prop, tier: tier, seed: uint64(seed), bins: []string{bin}, info: info, stats: map[string]int{},
		hashes: map[uint64]bool{}, scheds: map[uint64]bool{}, states: map[uint64]bool{}, nontriv: map[uint64]bool{}, firstHash: map[uint64]uint64{}}
	if info.Race {
		rbin, rmeta, err := buildWorker(repo, verif, true)
		if err != nil {
			return fail("%v", err)
		}
		meta["race_build_seconds"] = rmeta["build_seconds"]
		c.bins = append(c.bins, rbin)
	}
	known, err := loadKnown(verif)
	if err != nil {
		return fail("known-findings.txt: %v", err)
	}
	c.known = known
	secs := envInt("VERIF_SECONDS", 0)
	if secs == 0 {
		secs = 40
		if tier == "thorough" {
			secs = 600
		}
	}
	buildWall := time.Since(begin)
	simStart := time.Now()
	c.deadline = simStart.Add(time.Duration(secs) * time.Second)
	c.runs = make([]int, len(c.bins))
	c.next = make([]uint64, len(c.bins))
	for i := range c.next {
		c.next[i] = base + uint64(i)*500_000_000
	}
	var wg sync.WaitGroup
	nw := int(envInt("VERIF_WORKERS", 8))
	for i := 0; i < nw; i++ {
		b := 0
		if len(c.bins) > 1 && i%2 == 1 {
			b = 1
		}
		wg.Add(1)
		go func() { defer wg.Done(); c.loop(b) }()
	}
	wg.Wait()
	simWall := time.Since(simStart)
	// The first seeds once more, in other processes: the event logs have to be identical.
	if len(c.found) == 0 && len(c.harness) == 0 {
		c.stop = false
		c.deadline = time.Now().Add(20 * time.Second)
		var ws [8]*worker
		var wg sync.WaitGroup
		for i := range ws {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w, err := startWorker(bin)
				if err != nil {
					return
				}
				defer w.close()
				s := base + uint64(i)*5
				w.send(&request{Op: "run", Prop: prop, Tier: tier, Seed: s, Count: 5, Until: c.deadline.UnixMilli()})
				for {
					r, err := w.recv(90 * time.Second)
					if err != nil || r.Kind == "done" || r.Kind == "error" {
						return
					}
					if r.Kind == "result" {
						c.mu.Lock()
						if old, ok := c.firstHash[r.Seed]; ok {
							if old == r.Result.Hash^r.Result.Sched*3 {
								c.detOK++
							} else {
								c.detBad = append(c.detBad, fmt.Sprintf("seed %d", r.Seed))
							}
						}
						c.mu.Unlock()
					}
				}
			}()
		}
		wg.Wait()
	}
	nviol := 0
	var pick *found
	sort.Slice(c.found, func(i, j int) bool { return c.found[i].seed < c.found[j].seed })
	for i := range c.found {
		nviol++
		if pick == nil || (pick.res.Class == "hang" && c.found[i].res.Class != "hang") {
			pick = &c.found[i]
		}
	}
	total := 0
	for _, n := range c.runs {
		total += n
	}
	hours := simWall.Hours()
	cov := map[string]any{
		"evaluations":          total,
		"distinct_nontrivial":  len(c.nontriv),
		"rule":                 info.Rule + " Non-trivial: at least one fault or outside event hit, or the scheduler had to choose at least twice; distinct by the hash of event log, schedule and situation reached.",
		"samples":              c.samples,
		"runs_per_hour":        int(float64(total) / hours),
		"seeds_per_hour":       int(float64(total) / hours),
		"simulated_seconds":    c.simNS / 1e9,
		"faults_injected":      faultsOf(c.stats),
		"other_counts":         others(c.stats),
		"distinct_schedules":   len(c.scheds),
		"distinct_histories":   len(c.hashes),
		"distinct_states":      len(c.states),
		"scheduling_decisions": c.decisions,
		"goroutine_switches":   c.switches,
		"code_steps":           c.steps,
		"system_calls":         c.sys,
		"simulated_worlds":     c.worlds,
		"seed_range_start":     base,
		"real_components":      info.Real,
		"stub_components":      info.Stub,
		"determinism_check":    map[string]any{"seeds_repeated_identically": c.detOK, "different": c.detBad},
		"build":                meta,
		"build_wall_s":         buildWall.Seconds(),
		"simulation_wall_s":    simWall.Seconds(),
		"worker_processes":     c.restarts,
		"known_findings_hit":   c.knownSeen,
	}
	if len(c.bins) > 1 {
		cov["runs_plain"] = c.runs[0]
		cov["runs_with_race_detector"] = c.runs[1]
	}
	if len(c.samples) == 0 {
		cov["samples"] = []any{map[string]any{"seed": base, "note": "see seed_range_start"}}
	}
	writeEvidence := func() error {
		ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
			"assumptions": assumptions, "wall_s": time.Since(begin).Seconds(), "violations": nviol}
		data, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			return err
		}
		if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), data, 0o644)
	}
	for _, k := range known {
		if k.Property == prop && k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	if pick == nil {
		if err := writeEvidence(); err != nil {
			return fail("evidence: %v", err)
		}
		if len(c.harness) > 0 {
			return fail("the simulator had trouble: %s", strings.Join(c.harness, "\n"))
		}
		if total == 0 {
			return fail("no run was made")
		}
		fmt.Printf("OK property=%s runs=%d distinct=%d simulated=%.0fs build=%.1fs simulation=%.1fs\n", prop, total, len(c.nontriv), c.simNS/1e9, buildWall.Seconds(), simWall.Seconds())
		return 0
	}
	// Confirm, minimise, write the replay file.
	pbin := c.bins[pick.bin]
	plan, _, err := getPlan(pbin, prop, tier, pick.seed)
	if err != nil {
		return fail("%v", err)
	}
	var w *worker
	confirm, err := runPlan(&w, pbin, plan, true, 90*time.Second)
	w.close()
	res := pick.res
	note := ""
	if err == nil && confirm.Violation != "" && confirm.Harness == "" && !isKnown(known, prop, confirm) {
		res = confirm
	} else {
		// Memory state of the worker process played a part; the seed chunk is kept instead.
		note = "not reproduced in a fresh process"
	}
	mb := 60 * time.Second
	if tier == "thorough" {
		mb = 180 * time.Second
	}
	if note == "" && res.Class != "hang" {
		var tried, adopted int
		plan, res, tried, adopted = minimise(pbin, plan, res, mb)
		note = fmt.Sprintf("%d candidates tried, %d simplifications kept", tried, adopted)
		var w *worker
		if r, err := runPlan(&w, pbin, plan, true, 90*time.Second); err == nil && r.Violation != "" && r.Harness == "" {
			res = r
		}
		w.close()
	}
	rf := &replayFile{Property: prop, Seed: pick.seed, Tier: tier, Race: pick.bin == 1, Class: res.Class, Violation: res.Violation,
		EventHash: fmt.Sprintf("%016x", res.Hash), Minimised: note, Plan: plan, Trace: res.Log}
	data, _ := json.MarshalIndent(rf, "", " ")
	sum := sha256.Sum256(plan.Body)
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%s.json", prop, pick.seed, hex.EncodeToString(sum[:4])))
	if err := os.WriteFile(path, data, 0o644); err != nil {
		return fail("%v", err)
	}
	cov["violation"] = map[string]any{"seed": pick.seed, "class": res.Class, "text": trim(res.Violation, 2000), "replay": path, "minimised": note}
	if err := writeEvidence(); err != nil {
		return fail("evidence: %v", err)
	}
	fmt.Printf("seed %d [%s]: %s\n", pick.seed, res.Class, trim(res.Violation, 3000))
	if len(c.harness) > 0 {
		fmt.Fprintf(os.Stderr, "note: the simulator also had trouble: %s\n", strings.Join(c.harness, "\n"))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

var assumptions = []string{
	"The code under test is an instrumented copy of the working tree (step counters, injected os.Args, resettable package variables) built with patched copies of Go's scheduler, clock, random source and system call entry; goroutine switches happen at blocking operations, system calls and at counted function and loop entries, one goroutine at a time.",
	"Seeded sampling: absence of a violation covers the runs made, not all runs.",
	"The simulated disk, network and upstream answer as documented by POSIX, TCP and the GitHub API for the calls used.",
}

func others(m map[string]int) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		if !isFault(k) {
			o[k] = v
		}
	}
	return o
}

func replay(repo, verif, file string) int {
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	bin, _, err := buildWorker(repo, verif, rf.Race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var w *worker
	r, err := runPlan(&w, bin, rf.Plan, true, 120*time.Second)
	w.close()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range r.Log {
		fmt.Println(l)
	}
	if r.Harness != "" {
		fmt.Fprintln(os.Stderr, "simulator:", r.Harness)
		return 2
	}
	if r.Violation == "" {
		fmt.Printf("no violation (recorded: %s)\n", rf.Violation)
		return 0
	}
	fmt.Printf("[%s] %s\nevent hash %016x (recorded %s)\n", r.Class, r.Violation, r.Hash, rf.EventHash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

func main() {
	repo := os.Getenv("DST_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("DST_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	usage := func() {
		fmt.Fprintln(os.Stderr, "usage: dst build | check PROP | replay FILE | run PROP SEED [COUNT] | plan PROP SEED")
		os.Exit(2)
	}
	if len(os.Args) < 2 {
		usage()
	}
	arg := func(i int) string {
		if len(os.Args) <= i {
			usage()
		}
		return os.Args[i]
	}
	switch os.Args[1] {
	case "build":
		for _, race := range []bool{false, true} {
			_, meta, err := buildWorker(repo, verif, race)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			data, _ := json.Marshal(meta)
			fmt.Println(string(data))
		}
	case "check":
		os.Exit(check(repo, verif, arg(2)))
	case "replay":
		os.Exit(replay(repo, verif, arg(2)))
	case "plan", "run":
		race := os.Getenv("DST_RACE") != ""
		bin, _, err := buildWorker(repo, verif, race)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		seed, _ := strconv.ParseUint(arg(3), 10, 64)
		n := uint64(1)
		if len(os.Args) > 4 {
			n, _ = strconv.ParseUint(arg(4), 10, 64)
		}
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		var w *worker
		for s := seed; s < seed+n; s++ {
			p, _, err := getPlan(bin, arg(2), tier, s)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			if os.Args[1] == "plan" {
				data, _ := json.MarshalIndent(p, "", " ")
				fmt.Println(string(data))
				continue
			}
			t := time.Now()
			r, err := runPlan(&w, bin, p, n == 1, 120*time.Second)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			for _, l := range r.Log {
				fmt.Println(l)
			}
			fmt.Printf("seed %d hash %016x sched %016x state %016x decisions %d steps %d sys %d worlds %d sim %v wall %v stats %v note %s\n", s, r.Hash, r.Sched, r.State, r.Decisions, r.Steps, r.Sys, r.Worlds, time.Duration(r.SimNS), time.Since(t).Round(time.Microsecond), r.Stats, r.Note)
			if r.Harness != "" {
				fmt.Println("HARNESS", r.Harness)
			}
			if r.Violation != "" {
				fmt.Printf("[%s] %s\n", r.Class, r.Violation)
			}
		}
		w.close()
	default:
		usage()
	}
}
