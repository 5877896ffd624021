package sim

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"sort"
	"strings"
	"syscall"
	"testing/fstest"
	"time"

	"github.com/webrpc/webrpc/zz_dst/p0/schema"
	webrpc0 "github.com/webrpc/webrpc/zz_dst/p0/schema/ridl"
	tests0 "github.com/webrpc/webrpc/zz_dst/p0/tests"
	srv0 "github.com/webrpc/webrpc/zz_dst/p0/tests/server"
)

// The scenario of C13: webrpc-test as server, client and waiter on one simulated network.

type confTamper struct {
	Method string
	Nth    int // 0: every call
	Kind   string
}

type confSrv struct {
	At       time.Duration
	Slot     int
	Timeout  time.Duration
	Kill     time.Duration // after the start; 0 never
	Port     int
	BindFail bool
	Proxy    bool // a server that spoils answers
	Tampers  []confTamper
}

type confCli struct {
	At      time.Duration
	Slot    int
	Wait    bool
	Timeout time.Duration
	Port    int
	URL     string
	Kill    time.Duration
}

// confPrint is a run of webrpc-test that prints the schema of the test protocol or the version.
type confPrint struct {
	At       time.Duration
	Slot     int
	Flag     string
	StdoutTo string
	Fault    *Fault `json:",omitempty"`
}

type confBody struct {
	S          Sched
	Prints     []confPrint `json:",omitempty"`
	Servers    []confSrv
	Clients    []confCli
	MinLat     time.Duration
	Jitter     time.Duration
	Chunk      int
	Faults     []NetFault
	Partitions [][2]time.Duration // start, length
}

var confMethods = []string{"GetEmpty", "GetError", "GetOne", "SendOne", "GetMulti", "SendMulti", "GetComplex", "SendComplex", "GetEnumList", "GetEnumMap", "GetSchemaError"}
var confTampers = []string{"status", "errinstead", "drop", "garbage", "okinstead", "value", "errfield", "cut"}

// wrong tells whether an answer spoilt like that is not a right answer of the test protocol.
func (t confTamper) wrong() bool {
	outputs := map[string]bool{"GetOne": true, "GetMulti": true, "GetComplex": true, "GetEnumList": true, "GetEnumMap": true}
	switch t.Kind {
	case "status", "errinstead", "drop":
		return t.Method != "GetError"
	case "garbage", "okinstead":
		return outputs[t.Method] || t.Method == "GetError" || t.Method == "GetSchemaError"
	case "value":
		return t.Method == "GetOne" || t.Method == "GetMulti" || t.Method == "GetComplex"
	case "errfield":
		return t.Method == "GetSchemaError"
	case "cut":
		return outputs[t.Method] || t.Method == "GetSchemaError"
	}
	return false
}

type bufWriter struct {
	h    http.Header
	code int
	b    bytes.Buffer
}

func (w *bufWriter) Header() http.Header { return w.h }
func (w *bufWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *bufWriter) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	return w.b.Write(b)
}

// confHit is one answer given by a proxy.
type confHit struct {
	client uint32
	method string
	wrong  bool
	at     time.Time
}

func confProxy(n *Net, tampers []confTamper, hits *[]confHit) http.Handler {
	real := srv0.NewTestApiServer(&srv0.TestServer{})
	calls := map[string]int{}
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		m := r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:]
		calls[m]++
		rec := &bufWriter{h: http.Header{}}
		real.ServeHTTP(rec, r)
		hit := confHit{client: n.clientOf(r.RemoteAddr), method: m, at: time.Now()}
		body := rec.b.Bytes()
		kind := ""
		for _, t := range tampers {
			if strings.HasPrefix(m, "Send") && !t.wrong() {
				continue // would hide that what is sent back is wrong
			}
			if t.Method == m && (t.Nth == 0 || t.Nth == calls[m]) {
				kind = t.Kind
				hit.wrong = t.wrong()
				n.w.Stats["spoilt."+kind]++
			}
		}
		*hits = append(*hits, hit)
		hijack := func(head string) {
			c, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				io.WriteString(c, head)
				c.Close()
			}
		}
		switch kind {
		case "status":
			w.Header().Set("Content-Type", "text/html")
			w.WriteHeader(502)
			io.WriteString(w, "<html>bad gateway</html>")
			return
		case "errinstead":
			w.WriteHeader(500)
			io.WriteString(w, `{"error":"WebrpcInternalError","code":-7,"msg":"internal error","status":500}`)
			return
		case "drop":
			hijack("")
			return
		case "cut":
			k := len(body) / 2
			hijack(fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", rec.code, len(body), body[:k]))
			return
		case "garbage":
			w.WriteHeader(200)
			io.WriteString(w, `{"one": {"id"`)
			return
		case "okinstead":
			w.WriteHeader(200)
			io.WriteString(w, "{}")
			return
		case "value":
			body = bytes.ReplaceAll(body, []byte(`"name":"one"`), []byte(`"name":"onx"`))
			body = bytes.ReplaceAll(body, []byte(`John`), []byte(`Jahn`))
		case "errfield":
			body = bytes.ReplaceAll(body, []byte(`"msg":"`), []byte(`"msg":"x`))
		}
		for k, v := range rec.h {
			w.Header()[k] = v
		}
		w.WriteHeader(rec.code)
		w.Write(body)
	})
}

// clientOf finds the process at the other end of a connection to a server.
func (n *Net) clientOf(addr string) uint32 {
	for _, p := range n.conns {
		if p.ends[0].addr == addr {
			return p.clientID
		}
	}
	return 0
}

func genConf(r *rand.Rand, tier string) any {
	b := &confBody{S: genSched(r), MinLat: time.Duration(1+r.IntN(5)) * time.Millisecond}
	if r.IntN(3) == 0 {
		b.Jitter = time.Duration(r.IntN(60)) * time.Millisecond
	}
	if r.IntN(3) == 0 {
		b.Chunk = 1 + r.IntN(60)
	}
	port := func() int {
		if r.IntN(8) == 0 {
			return 7000
		}
		return 9988
	}
	ms := func(n int) time.Duration { return time.Duration(r.IntN(n)) * time.Millisecond }
	at := time.Duration(0)
	for i := 1 + r.IntN(3); i > 0; i-- {
		s := confSrv{At: at + ms(3000), Slot: pick(r, []int{0, 0, 0, 2}), Timeout: pick(r, []time.Duration{ms(2000), ms(20000), time.Minute, time.Second, 0}), Port: port()}
		if r.IntN(4) == 0 {
			s.Kill = 1 + ms(15000)
		}
		s.BindFail = r.IntN(12) == 0
		if r.IntN(3) == 0 {
			s.Proxy = true
			s.Slot = 0
			for j := r.IntN(3); j >= 0; j-- {
				t := confTamper{Method: pick(r, confMethods), Kind: pick(r, confTampers)}
				if r.IntN(3) == 0 {
					t.Nth = 1 + r.IntN(3)
				}
				if t.Method == "GetSchemaError" && r.IntN(2) == 0 {
					t.Nth = 1 + r.IntN(19)
				}
				s.Tampers = append(s.Tampers, t)
			}
		}
		b.Servers = append(b.Servers, s)
		at = s.At
		if r.IntN(2) == 0 {
			at += s.Timeout + ms(2500)
		}
	}
	at = 0
	for i := 1 + r.IntN(3); i > 0; i-- {
		c := confCli{At: at + ms(6000), Slot: pick(r, []int{1, 1, 2}), Wait: r.IntN(2) == 0, Port: port(), Timeout: pick(r, []time.Duration{ms(3000), ms(20000), time.Minute, time.Second, 90 * time.Second})}
		c.URL = pick(r, []string{"http://localhost:%d", "http://127.0.0.1:%d", "http://localhost:%d/", "http://testhost:%d", "http://10.0.0.2:%d"})
		if r.IntN(10) == 0 {
			c.Kill = 1 + ms(5000)
		}
		if r.IntN(3) == 0 {
			c.At = b.Servers[r.IntN(len(b.Servers))].At + ms(300)
		}
		b.Clients = append(b.Clients, c)
		at = c.At
	}
	if r.IntN(3) == 0 {
		for i := r.IntN(3); i >= 0; i-- {
			b.Faults = append(b.Faults, genNetFault(r))
		}
	}
	for i := r.IntN(6) - 3; i > 0; i-- {
		c := confPrint{At: ms(9000), Slot: r.IntN(3), Flag: pick(r, []string{"-printRIDL", "-printJSON", "-printJSON", "-print-schema", "-version"})}
		switch r.IntN(4) {
		case 0:
			c.StdoutTo = pick(r, []string{"full", "closed", "partial", "epipe"})
		case 1:
			c.Fault = &Fault{Class: "stdwrite", Nth: 1 + r.IntN(2), Kind: pick(r, []string{"ENOSPC", "EIO", "EACCES", "short", "EINTR", "torn", "crash"}), Arg: int64(1 + r.IntN(3000)), Sticky: r.IntN(3) == 0}
			if c.Fault.Kind == "short" {
				c.Fault.Sticky = false
			}
		}
		b.Prints = append(b.Prints, c)
	}
	if r.IntN(6) == 0 {
		b.Partitions = append(b.Partitions, [2]time.Duration{ms(6000), ms(20000)})
	}
	return b
}

func genNetFault(r *rand.Rand) NetFault {
	f := NetFault{Conn: 1 + r.IntN(6), Dir: pick(r, []string{"c2s", "s2c"}), At: r.IntN(400), Kind: pick(r, []string{"refuse", "reset", "close", "stall", "hang", "slow"}), Arg: int64(time.Duration(r.IntN(8000)) * time.Millisecond)}
	if r.IntN(3) == 0 {
		f.At = r.IntN(6000)
	}
	return f
}

type confProc struct {
	p      *Proc
	srv    *confSrv
	cli    *confCli
	print  *confPrint
	start  time.Time
	bindOK bool
	unsure bool // the port was being given up at that moment
	killed bool
}

// confPrinted judges what webrpc-test printed.
func confPrinted(flag, got string) string {
	ridl := tests0.GetRIDLSchema()
	switch flag {
	case "-version":
		if f := strings.Fields(got); len(f) < 2 || f[0] != "webrpc-test" || len(f[1]) < 2 {
			return fmt.Sprintf("no version: %q", got)
		}
	case "-printJSON":
		s, err := schema.ParseSchemaJSON([]byte(got))
		if err != nil {
			return fmt.Sprintf("no schema: %v", err)
		}
		fsys := fstest.MapFS{"test.ridl": {Data: []byte(ridl)}}
		t, err := webrpc0.NewParser(fsys, "/", "test.ridl").Parse()
		if err != nil {
			return err.Error()
		}
		if a, b := canonSchema(t, true), canonSchema(s, true); a != b {
			return diffText(a, b)
		}
	default:
		if got != ridl+"\n" || !strings.Contains(got, "service TestApi") {
			return diffText(ridl+"\n", got)
		}
	}
	return ""
}

func execConf(bb any, res *Result) {
	b := bb.(*confBody)
	w := &World{S: b.S, Budget: 40_000_000}
	n := w.UseNet()
	n.MinLat, n.Jitter, n.Chunk = max(b.MinLat, time.Millisecond), b.Jitter, b.Chunk
	for i := range b.Faults {
		f := b.Faults[i]
		n.Faults = append(n.Faults, &f)
	}
	var note []string
	var sum strings.Builder
	var hits []confHit
	out := RunWorld(w, func(w *World) {
		w.MkdirAll("/tmp")
		t0 := time.Now()
		type event struct {
			at time.Duration
			fn func()
		}
		var evs []event
		var procs []*confProc
		busy := func(slot int) bool {
			for _, x := range procs {
				if x.p.Slot == slot && !x.p.Ended {
					return true
				}
			}
			return false
		}
		servers := func() (l []*confProc) {
			for _, x := range procs {
				if x.srv != nil {
					l = append(l, x)
				}
			}
			return
		}
		for i := range b.Servers {
			s := &b.Servers[i]
			if s.Slot != 2 || s.Proxy {
				s.Slot = 0
			}
			if s.Port == 0 {
				s.Port = 9988
			}
			s.Timeout = max(s.Timeout, 0)
			evs = append(evs, event{s.At, func() {
				if busy(s.Slot) {
					return
				}
				x := &confProc{srv: s, start: time.Now(), bindOK: !s.BindFail}
				for _, o := range servers() {
					if o.srv.Port != s.Port || !o.bindOK {
						continue
					}
					end := o.start.Add(o.srv.Timeout)
					if !o.srv.Proxy && time.Since(end).Abs() < 100*time.Millisecond {
						x.unsure = true
					}
					if !o.p.Ended && (o.srv.Proxy || time.Now().Before(end)) {
						x.bindOK = false
					}
				}
				name := fmt.Sprintf("server%d", i)
				if s.Proxy {
					if !x.bindOK {
						return
					}
					note = append(note, fmt.Sprintf("%v proxy:%d %v for %v", s.At, s.Port, s.Tampers, s.Timeout))
					x.p = w.Spawn(name, s.Slot, func() {
						l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", s.Port))
						if err != nil {
							return
						}
						hs := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: confProxy(n, s.Tampers, &hits)}
						go hs.Serve(l)
						time.Sleep(s.Timeout)
					})
				} else {
					n.BindFail = 0
					if s.BindFail {
						n.BindFail = syscall.EACCES
					}
					note = append(note, fmt.Sprintf("%v server:%d for %v bindfail=%v", s.At, s.Port, s.Timeout, s.BindFail))
					x.p = w.SpawnMainNamed(name, s.Slot, "webrpc-test", "-server", fmt.Sprintf("-port=%d", s.Port), fmt.Sprintf("-timeout=%v", s.Timeout))
					time.Sleep(time.Microsecond) // until it listens
					n.BindFail = 0
				}
				procs = append(procs, x)
				if s.Kill > 0 {
					time.AfterFunc(s.Kill, func() {
						x.killed = x.killed || !x.p.Ended
						w.Kill(x.p)
					})
				}
			}})
		}
		for i := range b.Clients {
			c := &b.Clients[i]
			if c.Slot != 2 {
				c.Slot = 1
			}
			if c.Port == 0 {
				c.Port = 9988
			}
			if !strings.Contains(c.URL, "%d") {
				c.URL = "http://localhost:%d"
			}
			c.Timeout = max(c.Timeout, 0)
			evs = append(evs, event{c.At, func() {
				if busy(c.Slot) {
					return
				}
				x := &confProc{cli: c, start: time.Now()}
				args := []string{"-client", "-url=" + fmt.Sprintf(c.URL, c.Port)}
				if c.Wait {
					args = []string{"-waitForServer", "-url=" + fmt.Sprintf(c.URL, c.Port), fmt.Sprintf("-timeout=%v", c.Timeout)}
				}
				note = append(note, fmt.Sprintf("%v %s", c.At, strings.Join(args, " ")))
				x.p = w.SpawnMainNamed(fmt.Sprintf("client%d", i), c.Slot, "webrpc-test", args...)
				procs = append(procs, x)
				if c.Kill > 0 {
					time.AfterFunc(c.Kill, func() {
						x.killed = x.killed || !x.p.Ended
						w.Kill(x.p)
					})
				}
			}})
		}
		for i := range b.Prints {
			c := &b.Prints[i]
			c.Slot = max(0, min(c.Slot, 2))
			if !strings.HasPrefix(c.Flag, "-") {
				c.Flag = "-printJSON"
			}
			evs = append(evs, event{c.At, func() {
				if busy(c.Slot) {
					return
				}
				x := &confProc{print: c, start: time.Now()}
				name := fmt.Sprintf("print%d", i)
				if c.Fault != nil {
					f := *c.Fault
					f.Proc = name
					w.Faults = append(w.Faults, &f)
				}
				x.p = w.SpawnMainNamed(name, c.Slot, "webrpc-test", c.Flag)
				x.p.StdoutTo = c.StdoutTo
				procs = append(procs, x)
				note = append(note, fmt.Sprintf("%v %s >%s", c.At, c.Flag, c.StdoutTo))
			}})
		}
		for _, q := range b.Partitions {
			evs = append(evs, event{q[0], func() { n.Partition(true) }}, event{q[0] + q[1], func() { n.Partition(false) }})
			note = append(note, fmt.Sprintf("partition %v+%v", q[0], q[1]))
		}
		sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
		for _, e := range evs {
			if d := e.at - time.Since(t0); d > 0 {
				time.Sleep(d)
			}
			e.fn()
		}
		n.Partition(false)
		limit := time.Now().Add(3 * time.Minute)
		for _, x := range procs {
			w.WaitAll(time.Until(limit), x.p)
		}
		stuck := map[*confProc]bool{}
		for _, x := range procs {
			if !x.p.Ended {
				stuck[x] = true
				w.Kill(x.p)
			}
		}
		clean := len(b.Partitions) == 0
		for k, v := range w.Stats {
			if v > 0 && strings.HasPrefix(k, "net.") && k != "net.addrinuse" && k != "net.bindfail" {
				clean = false
			}
		}
		for _, f := range n.Faults {
			if f.fired > 0 {
				clean = false
				note = append(note, fmt.Sprintf("%s conn %d %s byte %d", f.Kind, f.Conn, f.Dir, f.At))
			}
		}
		res.Note = strings.Join(note, "; ")
		lat := n.MinLat + n.Jitter
		// up is the time in which a server certainly serves, any the time in which it possibly does.
		up := func(s *confProc) (time.Time, time.Time) {
			e := s.p.EndTime
			if z := s.start.Add(s.srv.Timeout); z.Before(e) {
				e = z
			}
			return s.start.Add(time.Millisecond), e
		}
		for _, x := range procs {
			p := x.p
			who := strings.Join(p.Args, " ")
			if x.srv != nil {
				who = "server " + who
			}
			fmt.Fprint(&sum, x.cli != nil, x.bindOK, p.Exit, x.killed, clean, stuck[x], " ")
			if p.Panic != "" {
				res.Fail("panic", "%s: %s", who, p.Panic)
				return
			}
			if x.killed {
				continue
			}
			dur := p.EndTime.Sub(x.start)
			if x.srv != nil && !x.srv.Proxy {
				if x.unsure {
					continue
				}
				if !x.bindOK {
					if p.Exit == 0 || stuck[x] {
						res.Fail("bind", "%s cannot listen, yet it exits with %d after %v", who, p.Exit, dur)
					} else if dur > 100*time.Millisecond {
						res.Fail("bind", "%s cannot listen, yet it ends only after %v", who, dur)
					} else if len(p.Stderr) == 0 {
						res.Fail("no-message", "%s exits with %d without a message", who, p.Exit)
					}
					continue
				}
				if stuck[x] || dur > x.srv.Timeout+1300*time.Millisecond {
					res.Fail("server-late", "%s has not ended in time: %v", who, dur)
					return
				}
				if dur < x.srv.Timeout {
					res.Fail("server-early", "%s ended after %v with exit status %d: %s", who, dur, p.Exit, trimText(string(p.Stderr), 300))
					return
				}
				quiet := clean
				for _, o := range procs {
					if o.cli != nil && o.start.Before(p.EndTime) && o.p.EndTime.After(x.start.Add(x.srv.Timeout-6*time.Second)) {
						quiet = false
					}
				}
				if quiet && p.Exit != 0 {
					res.Fail("server-exit", "%s exits with %d after its timeout although no call was in progress: %s", who, p.Exit, trimText(string(p.Stderr), 300))
					return
				}
				continue
			}
			if x.print != nil {
				c := x.print
				hard, fired := c.StdoutTo != "", false
				for _, f := range w.Faults {
					if f.Proc == p.Name && f.Fired() {
						fired = true
						hard = hard || !softFault(f)
					}
				}
				switch {
				case stuck[x]:
					res.Fail("hang", "%s has not ended after %v", who, dur)
				case p.Crashed || p.Exit == 141 && c.StdoutTo == "epipe":
				case p.Exit == 0:
					if d := confPrinted(c.Flag, string(p.Stdout)); d != "" && hard {
						res.Fail("print-unwritten", "%s exits with 0 although standard output could not be written: %s", who, d)
					} else if d != "" {
						res.Fail("incomplete-output", "%s exits with 0, but what it printed is not complete: %s", who, d)
					}
				case !hard:
					res.Fail("false-failure", "%s exits with %d although nothing failed: %s", who, p.Exit, trimText(string(p.Stderr), 300))
				case len(p.Stderr) == 0 && !fired:
					res.Fail("no-message", "%s exits with %d without a message", who, p.Exit)
				}
				if res.Violation != "" {
					return
				}
				res.Count("prints", 1)
				continue
			}
			if x.cli == nil {
				continue
			}
			c := x.cli
			if stuck[x] && clean {
				res.Fail("hang", "%s has not ended after %v", who, dur)
				return
			}
			if p.Exit != 0 && len(p.Stderr) == 0 && !stuck[x] {
				res.Fail("no-message", "%s exits with %d without a message", who, p.Exit)
				return
			}
			alive, good, wrong := false, 0, ""
			var must bool
			for _, s := range servers() {
				if s.srv.Port != c.Port || (!s.bindOK && !s.unsure) {
					continue
				}
				if s.start.Before(p.EndTime) && s.p.EndTime.After(x.start) {
					if !s.srv.Proxy {
						alive, good = true, good+1
					} else if c.Wait {
						for _, h := range hits {
							if h.client == p.ID && h.method == "GetEmpty" && !h.wrong {
								alive = true
							}
						}
					} else {
						alive = true
					}
				}
				if s.srv.Proxy || !s.bindOK || s.unsure || !clean {
					continue
				}
				a, z := up(s)
				if c.Wait {
					if a.Before(x.start) {
						a = x.start
					}
					if e := x.start.Add(c.Timeout); e.Before(z) {
						z = e
					}
					must = must || z.Sub(a) > 160*time.Millisecond+12*lat
				} else {
					must = must || (!a.After(x.start) && !z.Before(p.EndTime.Add(time.Millisecond)))
				}
			}
			for _, h := range hits {
				if h.client == p.ID && h.wrong {
					wrong = h.method
				}
			}
			if c.Wait {
				if stuck[x] || dur > c.Timeout+200*time.Millisecond {
					res.Fail("wait-late", "%s has not ended in time: %v", who, dur)
					return
				}
				if p.Exit == 0 && !alive {
					res.Fail("false-ready", "%s exits with 0 although no conforming server answered", who)
				}
				if p.Exit != 0 && must {
					res.Fail("false-unready", "%s exits with %d after %v although a server was up: %s", who, p.Exit, dur, trimText(string(p.Stderr), 300))
				}
				if p.Exit != 0 && dur < c.Timeout {
					res.Fail("wait-early", "%s gives up after %v: %s", who, dur, trimText(string(p.Stderr), 300))
				}
			} else {
				if p.Exit == 0 && !stuck[x] {
					if wrong != "" {
						res.Fail("false-success", "%s exits with 0 although the answer to %s was wrong", who, wrong)
					}
					if !alive {
						res.Fail("false-success", "%s exits with 0 although there was no server", who)
					}
				}
				if (p.Exit != 0 || stuck[x]) && must && wrong == "" {
					res.Fail("false-failure", "%s exits with %d (%v) although the server served all the time and nothing failed: %s", who, p.Exit, dur, trimText(string(p.Stderr), 600))
				}
			}
			if res.Violation != "" {
				return
			}
		}
	})
	res.Note = strings.Join(note, "; ")
	res.add(w, out)
	res.NoteState(sum.String())
}

func init() {
	register(&Scenario{Prop: "C13", Gen: genConf, New: func() any { return &confBody{} }, Exec: execConf, Shrink: autoShrink,
		Real: "cmd/webrpc-test, tests/client, tests/server (with net/http and encoding/json of the Go library)", Stub: "network (simulated connections with delay, cuts, stalls, refusals and partitions), clock, scheduler, disk; a server that spoils answers in some runs",
		Rule: "Servers (also restarted, killed, unable to listen, two on one port, or spoiling answers) and webrpc-test -waitForServer or -client processes start at random times; exit status and time of every process are compared with what the timeline allows."})
}
