package sim

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	srv "github.com/webrpc/webrpc/zz_dst/p0/_examples/webrpc-streaming/proto"
	cli "github.com/webrpc/webrpc/zz_dst/p1/_examples/webrpc-streaming/proto"
)

// The scenario of C17: streams of the generated client and server of the streaming example over the simulated network.

type strMsg struct {
	Gap  time.Duration `json:",omitempty"`
	Size int           `json:",omitempty"`
}

type strSub struct {
	At       time.Duration
	Msgs     []strMsg
	Writers  int    // goroutines of the handler that write, 0 and 1: the handler itself
	End      string // nil, declared, plain, wrapped, panic, wait
	EndGap   time.Duration
	Deaf     bool          // the handler does not look at errors of Write
	Cancel   time.Duration // the client cancels after that time, 0: never
	Deadline time.Duration
	ReadGap  time.Duration // between reads
	Raw      bool          // the lines themselves are read
	After    int           // calls of SendMessage over the same connections afterwards
	Seed     uint64
}

type strBody struct {
	S          Sched
	Subs       []strSub
	Share      bool // one transport for all
	Recover    bool
	MinLat     time.Duration
	Jitter     time.Duration
	Chunk      int
	Faults     []NetFault
	Partitions [][2]time.Duration
	Crash      time.Duration
}

func genStream(r *rand.Rand, tier string) any {
	b := &strBody{S: genSched(r), MinLat: time.Duration(1+r.IntN(8)) * time.Millisecond, Share: r.IntN(2) == 0, Recover: r.IntN(2) == 0}
	if r.IntN(3) == 0 {
		b.Jitter = time.Duration(r.IntN(60)) * time.Millisecond
	}
	if r.IntN(3) == 0 {
		b.Chunk = 1 + r.IntN(300)
	}
	gap := func() time.Duration {
		switch r.IntN(6) {
		case 0:
			return time.Duration(1+r.IntN(3)) * srv.StreamKeepAliveInterval
		case 1:
			return time.Duration(r.IntN(30000)) * time.Millisecond
		case 2:
			return srv.StreamKeepAliveInterval + time.Duration(r.IntN(7)-3)*time.Microsecond
		case 3:
			return time.Duration(r.IntN(1000)) * time.Millisecond
		}
		return 0
	}
	for i := 1 + r.IntN(4); i > 0; i-- {
		s := strSub{At: time.Duration(r.IntN(3000)) * time.Millisecond, End: pick(r, []string{"nil", "nil", "nil", "declared", "plain", "wrapped", "panic", "wait"}), EndGap: gap(), Deaf: r.IntN(3) == 0, Raw: r.IntN(3) == 0, Seed: r.Uint64()}
		for j := r.IntN(12); j > 0; j-- {
			m := strMsg{Gap: gap()}
			if r.IntN(8) == 0 {
				m.Size = r.IntN(9000)
			}
			s.Msgs = append(s.Msgs, m)
		}
		if r.IntN(4) == 0 {
			s.Writers = 2 + r.IntN(3)
		}
		switch r.IntN(5) {
		case 0:
			s.Cancel = 1 + time.Duration(r.IntN(40000))*time.Millisecond
		case 1:
			s.Deadline = 1 + time.Duration(r.IntN(40000))*time.Millisecond
		}
		if s.End == "wait" && s.Cancel+s.Deadline == 0 {
			s.Cancel = 1 + time.Duration(r.IntN(40000))*time.Millisecond
		}
		if r.IntN(3) == 0 {
			s.ReadGap = time.Duration(r.IntN(3000)) * time.Millisecond
		}
		s.After = r.IntN(3)
		b.Subs = append(b.Subs, s)
	}
	if r.IntN(2) == 0 {
		for i := 1 + r.IntN(2); i > 0; i-- {
			f := genNetFault(r)
			f.Conn = 1 + r.IntN(5)
			f.At = r.IntN(2500)
			b.Faults = append(b.Faults, f)
		}
	}
	if r.IntN(6) == 0 {
		b.Partitions = append(b.Partitions, [2]time.Duration{time.Duration(r.IntN(30000)) * time.Millisecond, time.Duration(r.IntN(40000)) * time.Millisecond})
	}
	if r.IntN(8) == 0 {
		b.Crash = 1 + time.Duration(r.IntN(30000))*time.Millisecond
	}
	return b
}

// text is what message k of a subscription says.
func (s *strSub) text(k int) string {
	return fmt.Sprintf("%d %s%s", k, rpcStrings[(s.Seed+uint64(k))%uint64(len(rpcStrings))], strings.Repeat("x\n", s.Msgs[k].Size/2))
}

// expect is the error the handler leads to.
func (s *strSub) expect() (code int, cause string) {
	switch s.End {
	case "declared":
		return srv.ErrEmptyUsername.Code, ""
	case "plain":
		return srv.ErrWebrpcEndpoint.Code, "plain end"
	case "wrapped":
		return srv.ErrWebrpcEndpoint.Code, "while working: " + srv.ErrEmptyUsername.Error()
	case "panic":
		return srv.ErrWebrpcServerPanic.Code, "handler panics"
	}
	return srv.ErrWebrpcStreamFinished.Code, ""
}

// strRun is what happened to one subscription.
type strRun struct {
	sub      *strSub
	runs     int
	wrote    []bool // Write was called
	acked    []bool // and returned nil
	ended    bool   // the handler returned
	start    time.Time
	end      time.Time
	ctxDone  time.Time
	clientAt time.Time // when the client was done
	err      string
}

type strState struct {
	w    *World
	res  *Result
	runs map[string]*strRun
	sent map[string]int
}

type strHandler struct{ st *strState }

func (h strHandler) SendMessage(ctx context.Context, username, text string) error {
	h.st.sent[username+"/"+text]++
	if strings.HasSuffix(text, "!") {
		return srv.ErrEmptyUsername
	}
	return nil
}

func (h strHandler) SubscribeMessages(ctx context.Context, username string, last *uint64, stream srv.SubscribeMessagesStreamWriter) error {
	id := ""
	if r := srv.RequestFromContext(ctx); r != nil {
		id = r.Header.Get("X-Call")
	}
	x := h.st.runs[id]
	if x == nil {
		return nil
	}
	s := x.sub
	x.runs++
	if username != "user "+id || last == nil || *last != s.Seed {
		h.st.res.Fail("wrong-argument", "the handler of stream %s got %q and %v", id, username, last)
	}
	x.start = time.Now()
	defer func() {
		if x.ctxDone.IsZero() && ctx.Err() != nil {
			x.ctxDone = time.Now()
		}
		x.ended, x.end = true, time.Now()
	}()
	write := func(k int) bool {
		sleep(ctx, s.Msgs[k].Gap)
		if ctx.Err() != nil && !s.Deaf {
			return false
		}
		x.wrote[k] = true
		err := stream.Write(&srv.Message{Id: uint64(k), Username: id, Text: s.text(k), CreatedAt: time.Unix(int64(k), 5).UTC()})
		if err == nil {
			x.acked[k] = true
		}
		return err == nil || s.Deaf
	}
	n := max(1, s.Writers)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		work := func() {
			for k := i; k < len(s.Msgs); k += n {
				if !write(k) {
					return
				}
			}
		}
		if n == 1 {
			work()
		} else {
			wg.Add(1)
			go func() { defer wg.Done(); work() }()
		}
	}
	wg.Wait()
	if s.End == "wait" {
		select {
		case <-ctx.Done():
			x.ctxDone = time.Now()
		case <-time.After(10 * time.Minute):
		}
		return ctx.Err()
	}
	sleep(ctx, s.EndGap)
	switch s.End {
	case "declared":
		return srv.ErrEmptyUsername
	case "plain":
		return errors.New("plain end")
	case "wrapped":
		return fmt.Errorf("while working: %w", srv.ErrEmptyUsername)
	case "panic":
		panic("handler panics")
	}
	return nil
}

func sleep(ctx context.Context, d time.Duration) {
	if d <= 0 {
		return
	}
	select {
	case <-ctx.Done():
	case <-time.After(d):
	}
}

// lateWriter notices what is written after the handler has returned.
type lateWriter struct {
	http.ResponseWriter
	f    http.Flusher
	done bool
	busy bool
	late func(string)
	both func()
}

// enter notices two goroutines in the response at once.
func (w *lateWriter) enter() func() {
	if w.busy && !w.done {
		w.both()
	}
	w.busy = true
	runtime.Gosched()
	return func() { w.busy = false }
}

func (w *lateWriter) Write(b []byte) (int, error) {
	defer w.enter()()
	if w.done {
		w.late(fmt.Sprintf("%q", b))
		return 0, errors.New("too late")
	}
	return w.ResponseWriter.Write(b)
}
func (w *lateWriter) WriteHeader(c int) {
	if w.done {
		w.late("a header")
		return
	}
	w.ResponseWriter.WriteHeader(c)
}
func (w *lateWriter) Flush() {
	defer w.enter()()
	if !w.done {
		w.f.Flush()
	}
}

func (b *strBody) clamp() {
	b.MinLat, b.Jitter = max(b.MinLat, time.Millisecond), max(b.Jitter, 0)
	for i := range b.Subs {
		s := &b.Subs[i]
		if s.End == "" {
			s.End = "nil"
		}
		if s.End == "wait" && s.Cancel+s.Deadline == 0 {
			s.Cancel = time.Second
		}
		s.At, s.EndGap, s.Cancel, s.Deadline, s.ReadGap = max(s.At, 0), max(s.EndGap, 0), max(s.Cancel, 0), max(s.Deadline, 0), max(s.ReadGap, 0)
		for j := range s.Msgs {
			s.Msgs[j].Size = max(0, min(s.Msgs[j].Size, 20000))
			s.Msgs[j].Gap = max(0, s.Msgs[j].Gap)
		}
	}
}

func execStream(bb any, res *Result) {
	b := bb.(*strBody)
	b.clamp()
	if len(b.Subs) == 0 {
		return
	}
	w := &World{S: b.S, Budget: 100_000_000}
	n := w.UseNet()
	n.MinLat, n.Jitter, n.Chunk = b.MinLat, b.Jitter, b.Chunk
	for i := range b.Faults {
		f := b.Faults[i]
		n.Faults = append(n.Faults, &f)
	}
	var note []string
	var sum strings.Builder
	var late string
	out := RunWorld(w, func(w *World) {
		st := &strState{w: w, res: res, runs: map[string]*strRun{}, sent: map[string]int{}}
		startServer := func() *Proc {
			return w.Spawn("server", 0, func() {
				l, err := net.Listen("tcp", "0.0.0.0:9988")
				if err != nil {
					return
				}
				h := srv.NewChatServer(strHandler{st})
				(&http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(hw http.ResponseWriter, r *http.Request) {
					id := r.Header.Get("X-Call")
					lw := &lateWriter{ResponseWriter: hw, f: hw.(http.Flusher), both: func() {
						if x := st.runs[id]; x != nil && x.ended && x.sub.End == "panic" {
							if late == "" {
								late = fmt.Sprintf("two goroutines write to the response of stream %s at once after its handler panicked", id)
							}
							return
						}
						res.Fail("mixed-write", "two goroutines write to the response of stream %s at once", id)
					}, late: func(s string) {
						if late == "" {
							late = fmt.Sprintf("the server writes %s to the response of stream %s after its handler has returned", s, id)
						}
					}}
					defer func() {
						lw.done = true
						if b.Recover {
							recover()
						}
					}()
					h.ServeHTTP(lw, r)
				})}).Serve(l)
			})
		}
		server := startServer()
		time.Sleep(time.Millisecond)
		for _, q := range b.Partitions {
			w.later(q[0], func() { n.Partition(true) })
			w.later(q[0]+q[1], func() { n.Partition(false) })
			note = append(note, fmt.Sprintf("partition %v+%v", q[0], q[1]))
		}
		if b.Crash > 0 {
			w.later(b.Crash, func() { w.logf("server crash"); w.Kill(server) })
			note = append(note, fmt.Sprintf("crash at %v", b.Crash))
		}
		clean := func() bool {
			if len(b.Partitions) > 0 || b.Crash > 0 {
				return false
			}
			for _, f := range n.Faults {
				if f.fired > 0 {
					return false
				}
			}
			return true
		}
		bound := 400*time.Millisecond + 40*(n.MinLat+n.Jitter)
		var shared *http.Client
		client := w.Spawn("client", 1, func() {
			var dones []chan struct{}
			for i := range b.Subs {
				s := &b.Subs[i]
				id := fmt.Sprintf("s%d", i)
				x := &strRun{sub: s, wrote: make([]bool, len(s.Msgs)), acked: make([]bool, len(s.Msgs))}
				st.runs[id] = x
				hc := &http.Client{Transport: NewTransport()}
				if b.Share {
					if shared == nil {
						shared = hc
					}
					hc = shared
				}
				done := make(chan struct{})
				dones = append(dones, done)
				go func() {
					defer close(done)
					time.Sleep(s.At)
					st.subscribe(id, x, hc, clean, bound, &sum)
					x.clientAt = time.Now()
					api := cli.NewChatClient("http://localhost:9988", hc)
					for k := 0; k < s.After && res.Violation == ""; k++ {
						time.Sleep(time.Duration(k) * 7 * time.Second)
						text := fmt.Sprintf("after %d", k)
						if (s.Seed+uint64(k))%3 == 0 {
							text += "!"
						}
						err := api.SendMessage(context.Background(), id, text)
						switch c := st.sent[id+"/"+text]; {
						case c > 1:
							res.Fail("executed-twice", "a call over the connection of stream %s ran %d times", id, c)
						case err == nil && (c != 1 || strings.HasSuffix(text, "!")):
							res.Fail("false-success", "a call after stream %s returned no error (%d runs)", id, c)
						case err != nil && clean() && !(strings.HasSuffix(text, "!") && errors.Is(err, cli.ErrEmptyUsername)):
							res.Fail("false-failure", "a call after stream %s failed: %v", id, err)
						}
					}
				}()
			}
			for _, d := range dones {
				<-d
			}
		})
		ended := w.WaitAll(15*time.Minute, client)
		for i := range b.Subs {
			s := b.Subs[i]
			t := fmt.Sprintf("s%d: %d messages by %d, %s after %v", i, len(s.Msgs), max(1, s.Writers), s.End, s.EndGap)
			if s.Cancel+s.Deadline > 0 {
				t += fmt.Sprintf(", cancelled %v deadline %v", s.Cancel, s.Deadline)
			}
			note = append(note, t)
		}
		for _, f := range n.Faults {
			if f.fired > 0 {
				note = append(note, fmt.Sprintf("%s conn %d %s byte %d", f.Kind, f.Conn, f.Dir, f.At))
			}
		}
		res.Note = strings.Join(note, "; ")
		for _, p := range w.Procs {
			if p.Panic != "" {
				res.Fail("panic", "%s: %s", p.Name, p.Panic)
				return
			}
		}
		if !ended {
			if clean() {
				res.Fail("hang", "a client has not ended after 15 minutes")
			}
			return
		}
		if res.Violation != "" {
			return
		}
		// The handlers of streams whose clients are gone end as well.
		time.Sleep(bound + 5*time.Second)
		if !clean() {
			return
		}
		for id, x := range st.runs {
			if x.runs > 1 {
				res.Fail("executed-twice", "the handler of stream %s ran %d times", id, x.runs)
			}
			if x.sub.End != "wait" || x.runs == 0 {
				continue
			}
			if !x.ended {
				res.Fail("abandoned", "the handler of stream %s is not told that its client is gone", id)
			} else if x.ctxDone.Sub(x.clientAt) > bound+x.pending() {
				res.Fail("abandoned", "the handler of stream %s is told that its client is gone only after %v", id, x.ctxDone.Sub(x.clientAt))
			}
		}
	})
	res.Note = strings.Join(note, "; ")
	if late != "" && res.Violation == "" {
		res.Fail("late-write", "%s", late)
	}
	res.add(w, out)
	words := strings.Fields(sum.String())
	sort.Strings(words)
	res.NoteState(strings.Join(words, " "))
}

// pending is how long the handler may be busy without looking at its context.
func (x *strRun) pending() time.Duration { return 0 }

// subscribe is the client of one stream.
func (st *strState) subscribe(id string, x *strRun, hc *http.Client, clean func() bool, bound time.Duration, sum *strings.Builder) {
	s, res, w := x.sub, st.res, st.w
	ctx, _ := cli.WithHTTPRequestHeaders(context.Background(), http.Header{"X-Call": {id}})
	cancel := func() {}
	began := time.Now()
	limit := s.Deadline
	if s.Deadline > 0 {
		ctx, cancel = context.WithTimeout(ctx, s.Deadline)
	} else if s.Cancel > 0 {
		limit = s.Cancel
		ctx, cancel = context.WithCancel(ctx)
		time.AfterFunc(s.Cancel, cancel)
	}
	defer cancel()
	seed := s.Seed
	got := make([]bool, len(s.Msgs))
	count := 0
	accept := func(k uint64, user, text string, at time.Time) bool {
		if k >= uint64(len(s.Msgs)) || !x.wrote[k] {
			res.Fail("wrong-message", "stream %s got a message %d that was not written", id, k)
			return false
		}
		if user != id || text != s.text(int(k)) || !at.Equal(time.Unix(int64(k), 5)) {
			res.Fail("wrong-message", "stream %s got message %d as %q %q", id, k, user, trimText(text, 200))
			return false
		}
		if got[k] {
			res.Fail("repeated-message", "stream %s got message %d twice", id, k)
			return false
		}
		n := max(1, s.Writers)
		for j := int(k) - n; j >= 0; j -= n {
			if !got[j] && x.wrote[j] && x.acked[j] {
				res.Fail("lost-message", "stream %s got message %d without message %d before it", id, k, j)
				return false
			}
		}
		got[k] = true
		count++
		return true
	}
	// terminal judges the end of a stream; code 0..: an error of the server; lost: the connection broke.
	terminal := func(kind string, code int, cause string) {
		wantCode, wantCause := s.expect()
		fmt.Fprint(sum, s.End, kind, count == len(s.Msgs), " ")
		aborted := ctx.Err() != nil
		res.Count("streams_"+kind, 1)
		complete := func() bool {
			for k := range got {
				if x.acked[k] && !got[k] {
					res.Fail("lost-message", "stream %s ends (%s) without message %d", id, kind, k)
					return false
				}
				if !got[k] && clean() && !aborted {
					res.Fail("lost-message", "stream %s ends (%s) without message %d", id, kind, k)
					return false
				}
			}
			return true
		}
		switch kind {
		case "finished":
			if !x.ended || s.End != "nil" && s.End != "wait" {
				res.Fail("false-end", "stream %s reports that it finished although its handler ended with %s (%v)", id, s.End, x.ended)
				return
			}
			complete()
		case "server":
			if s.End == "wait" {
				return
			}
			if code != wantCode || code == srv.ErrWebrpcStreamFinished.Code || cause != wantCause {
				res.Fail("wrong-error", "stream %s ends with error %d (%s) instead of %d (%s)", id, code, cause, wantCode, wantCause)
				return
			}
			complete()
		case "aborted":
			if !aborted {
				res.Fail("false-abort", "stream %s reports that the client aborted it, which it did not", id)
			}
		case "lost":
			if clean() && !aborted && s.End != "panic" {
				res.Fail("false-loss", "stream %s reports a lost connection although nothing failed: %s", id, cause)
			}
		}
	}
	if s.Raw {
		st.raw(ctx, id, x, hc, clean, bound, accept, terminal)
		return
	}
	api := cli.NewChatClient("http://localhost:9988", hc)
	rd, err := api.SubscribeMessages(ctx, "user "+id, &seed)
	if err != nil {
		w.logf("stream %s: %v", id, err)
		fmt.Fprint(sum, "refused ")
		if clean() && ctx.Err() == nil {
			res.Fail("false-failure", "stream %s cannot be opened: %v", id, err)
		}
		return
	}
	for {
		sleep(ctx, s.ReadGap)
		since := time.Now()
		m, err := rd.Read()
		if limit > 0 && time.Since(began) > limit+20*time.Millisecond && time.Since(since) > 20*time.Millisecond {
			res.Fail("late-return", "stream %s: Read returned %v after its context had ended", id, time.Since(began)-limit)
			return
		}
		w.logf("stream %s: %v %v", id, m != nil, err)
		if err == nil {
			if m == nil {
				res.Fail("wrong-message", "stream %s got no message and no error", id)
				return
			}
			if !accept(m.Id, m.Username, m.Text, m.CreatedAt) {
				return
			}
			if !clean() && time.Since(began) > 5*time.Minute {
				cancel()
			}
			continue
		}
		var e cli.WebRPCError
		var p *cli.WebRPCError
		switch {
		case errors.As(err, &p):
			terminal("server", p.Code, p.Cause)
		case !errors.As(err, &e):
			res.Fail("wrong-error", "stream %s ends with an error of type %T: %v", id, err, err)
		case errors.Is(err, cli.ErrWebrpcStreamFinished):
			terminal("finished", 0, "")
		case errors.Is(err, cli.ErrWebrpcClientAborted):
			terminal("aborted", 0, "")
		case errors.Is(err, cli.ErrWebrpcBadResponse) && errors.Is(err, io.ErrUnexpectedEOF):
			res.Fail("wrong-error", "stream %s breaks off and reports %v instead of a lost stream", id, err)
		case errors.Is(err, cli.ErrWebrpcStreamLost), errors.Is(err, cli.ErrWebrpcBadResponse):
			terminal("lost", 0, err.Error())
		default:
			terminal("server", e.Code, e.Cause)
		}
		if res.Violation != "" {
			return
		}
		// A stream that has ended stays so.
		for i := 0; i < 2; i++ {
			since = time.Now()
			if m, err := rd.Read(); err == nil {
				res.Fail("after-end", "stream %s gives a message after its end: %v", id, m)
				return
			}
			if d := time.Since(since); d > bound && clean() {
				res.Fail("after-end", "reading stream %s after its end took %v", id, d)
			}
		}
		return
	}
}

// raw reads the lines of a stream as they arrive.
func (st *strState) raw(ctx context.Context, id string, x *strRun, hc *http.Client, clean func() bool, bound time.Duration, accept func(uint64, string, string, time.Time) bool, terminal func(string, int, string)) {
	s, res := x.sub, st.res
	body, _ := json.Marshal(map[string]any{"username": "user " + id, "lastMessageId": s.Seed})
	req, _ := http.NewRequestWithContext(ctx, "POST", "http://localhost:9988/v1/Chat/SubscribeMessages", bytes.NewReader(body))
	req.Header.Set("Content-Type", "application/json")
	req.Header.Set("X-Call", id)
	resp, err := hc.Do(req)
	if err != nil {
		if clean() && ctx.Err() == nil {
			res.Fail("false-failure", "stream %s cannot be opened: %v", id, err)
		}
		return
	}
	defer resp.Body.Close()
	if resp.StatusCode != 200 && !clean() {
		return // the request was cut
	}
	if ct := resp.Header.Get("Content-Type"); resp.StatusCode != 200 || ct != "application/x-ndjson" || resp.Header.Get(srv.WebrpcHeader) != srv.WebrpcHeaderValue {
		res.Fail("wrong-response", "stream %s starts with status %d, content type %q", id, resp.StatusCode, ct)
		return
	}
	br := bufio.NewReader(resp.Body)
	last := time.Now()
	first := true
	over := false
	for {
		line, err := br.ReadBytes('\n')
		if d := time.Since(last); clean() && ctx.Err() == nil && d > srv.StreamKeepAliveInterval+bound {
			res.Fail("silence", "stream %s was silent for %v", id, d)
			return
		}
		last = time.Now()
		if err != nil {
			switch {
			case ctx.Err() != nil:
				terminal("aborted", 0, "")
			case over:
			case err.Error() == "EOF":
				if len(line) > 0 {
					res.Fail("torn-line", "stream %s ends within a line: %q", id, trimText(string(line), 200))
					return
				}
				terminal("finished", 0, "")
			default:
				terminal("lost", 0, err.Error())
			}
			return
		}
		if first && len(line) != 1 {
			res.Fail("wrong-response", "stream %s does not start with a ping: %q", id, trimText(string(line), 200))
			return
		}
		first = false
		if len(line) == 1 {
			res.Count("pings", 1)
			continue
		}
		var v struct {
			Message     *srv.Message     `json:"message"`
			WebRPCError *srv.WebRPCError `json:"webrpcError"`
		}
		if err := json.Unmarshal(line, &v); err != nil || (v.Message == nil) == (v.WebRPCError == nil) {
			res.Fail("torn-line", "stream %s has the line %q", id, trimText(string(line), 300))
			return
		}
		if over {
			res.Fail("after-end", "stream %s goes on after its error: %q", id, trimText(string(line), 300))
			return
		}
		if v.WebRPCError != nil {
			over = true
			terminal("server", v.WebRPCError.Code, v.WebRPCError.Cause)
		} else if !accept(v.Message.Id, v.Message.Username, v.Message.Text, v.Message.CreatedAt) {
			return
		}
		if res.Violation != "" {
			return
		}
	}
}

func init() {
	register(&Scenario{Prop: "C17", Gen: genStream, New: func() any { return &strBody{} }, Exec: execStream, Shrink: autoShrink,
		Real: "_examples/webrpc-streaming/proto/chat.gen.go (generated client and server), net/http and encoding/json of the Go library",
		Stub: "network (simulated connections with delay, cuts, stalls, refusals and partitions), clock, scheduler; handlers are those of the simulation",
		Rule: "Concurrent streams with scripted messages, pauses around the keep-alive interval, several writers, errors, panics, cancellations and slow readers, while connections are cut, stalled or partitioned and the server crashes; what each reader gets is compared with what its handler wrote and how it ended. Plain calls follow over the same connections."})
}
