// Command worker executes simulated runs on request. It talks JSON lines with the driver.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"mime"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/webrpc/webrpc/zz_dst/sim"
)

type request struct {
	Op     string // run, plan, shrink, list
	Prop   string
	Tier   string
	Seed   uint64 // first seed
	Count  int
	Until  int64 // unix milliseconds; stop before
	Plan   *sim.Plan
	Log    bool
	NoHash bool
}

type response struct {
	Kind   string      // start, result, plan, shrink, done, error
	Seed   uint64      `json:",omitempty"`
	Result *sim.Result `json:",omitempty"`
	Plan   *sim.Plan   `json:",omitempty"`
	Plans  []*sim.Plan `json:",omitempty"`
	Error  string      `json:",omitempty"`
	Names  []string    `json:",omitempty"`
	Info   *sim.Info   `json:",omitempty"`
	RSS    uint64      `json:",omitempty"`
}

var out = bufio.NewWriter(os.Stdout)

func send(r response) {
	data, err := json.Marshal(r)
	if err != nil {
		data, _ = json.Marshal(response{Kind: "error", Error: err.Error()})
	}
	out.Write(data)
	out.WriteByte('\n')
	out.Flush()
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1500 << 20)
	debug.SetMaxStack(128 << 20)
	runtime.MemProfileRate = 0
	_ = time.Now().Local().String()
	_ = mime.TypeByExtension(".html")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			send(response{Kind: "error", Error: err.Error()})
			continue
		}
		handle(&q)
	}
}

var sinceGC int

func collect() {
	sinceGC++
	var m runtime.MemStats
	if sinceGC >= 20 {
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 256<<20 || sinceGC >= 2000 {
			runtime.GC()
			sinceGC = 0
		}
	}
}

func handle(q *request) {
	switch q.Op {
	case "list":
		send(response{Kind: "list", Names: sim.Scenarios()})
	case "info":
		send(response{Kind: "info", Info: sim.Describe(q.Prop)})
	case "plan":
		p, err := sim.MakePlan(q.Prop, q.Seed, q.Tier)
		if err != nil {
			send(response{Kind: "error", Error: err.Error()})
			return
		}
		send(response{Kind: "plan", Plan: p})
	case "shrink":
		ps, err := sim.ShrinkPlan(q.Plan)
		if err != nil {
			send(response{Kind: "error", Error: err.Error()})
			return
		}
		send(response{Kind: "shrink", Plans: ps})
	case "runplan":
		send(response{Kind: "start", Seed: q.Plan.Seed})
		res := sim.RunPlan(q.Plan)
		if !q.Log {
			res.Log = nil
		}
		collect()
		send(response{Kind: "result", Seed: q.Plan.Seed, Result: res})
	case "run":
		for i := 0; i < q.Count; i++ {
			if q.Until > 0 && time.Now().UnixMilli() > q.Until {
				break
			}
			seed := q.Seed + uint64(i)
			p, err := sim.MakePlan(q.Prop, seed, q.Tier)
			if err != nil {
				send(response{Kind: "error", Error: err.Error()})
				return
			}
			send(response{Kind: "start", Seed: seed})
			res := sim.RunPlan(p)
			if res.Violation == "" && res.Harness == "" && !q.Log {
				res.Log = nil
			}
			if len(res.Log) > 400 && !q.Log {
				res.Log = res.Log[len(res.Log)-400:]
			}
			collect()
			send(response{Kind: "result", Seed: seed, Result: res})
		}
		send(response{Kind: "done", RSS: rss()})
	default:
		send(response{Kind: "error", Error: fmt.Sprintf("unknown operation %q", q.Op)})
	}
}

func rss() uint64 {
	data, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(data))
	if len(f) < 2 {
		return 0
	}
	var n uint64
	fmt.Sscan(f[1], &n)
	return n * 4096
}
