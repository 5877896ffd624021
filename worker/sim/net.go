package sim

import (
	dstrt "archive"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// NetFault is one planned network fault. Connection faults count dials between processes; request faults count
// requests to the simulated GitHub.
type NetFault struct {
	Conn  int    `json:",omitempty"` // 1: first connection accepted in the run; 0: any
	Dir   string `json:",omitempty"` // c2s or s2c
	At    int    `json:",omitempty"` // after this many bytes in that direction
	Kind  string // refuse, reset, close, stall, hang, slow
	Arg   int64  `json:",omitempty"`
	fired int
}

// Net is the simulated network.
type Net struct {
	w         *World
	listeners map[string]*listener
	conns     []*pipe
	nconn     int
	dials     int
	Faults    []*NetFault
	MinLat    time.Duration
	Jitter    time.Duration
	Chunk     int // the largest number of bytes delivered at once; 0 no bound
	// HTTP answers requests to hosts outside the simulation (the simulated GitHub).
	HTTP func(p *Proc, req *http.Request) (*http.Response, error)
	// Partitioned: nothing is delivered and no connection is made while set.
	Partitioned bool
	transports  map[uint32]*http.Transport
	// BindFail makes Listen fail with this errno.
	BindFail syscall.Errno
	// ListenDelay delays the moment a listening socket exists.
	ListenDelay time.Duration
}

// UseNet gives the world a network.
func (w *World) UseNet() *Net {
	w.Net = &Net{w: w, listeners: map[string]*listener{}, transports: map[uint32]*http.Transport{}, MinLat: time.Millisecond}
	return w.Net
}

// roundTrip is called by every http.Transport: requests to GitHub go to the simulated one, requests through
// http.DefaultTransport to a transport of the process (processes share the variable), others over the simulated TCP.
func roundTrip(t *http.Transport, req *http.Request) (resp *http.Response, err error, ok bool) {
	w := cur
	p := procByID(dstrt.Proc())
	if w == nil || w.Net == nil {
		return nil, errors.New("no network in this simulation"), true
	}
	if p != nil && p.Ended {
		park()
	}
	host := req.URL.Hostname()
	if strings.HasSuffix(host, "github.com") || strings.HasSuffix(host, "githubusercontent.com") {
		if w.Net.HTTP == nil {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ENETUNREACH}, true
		}
		dstrt.Quiet(true)
		defer dstrt.Quiet(false)
		sent := req
		var late atomic.Bool
		if d := t.ResponseHeaderTimeout; d > 0 {
			ctx, cancel := context.WithCancel(req.Context())
			sent = req.WithContext(ctx)
			timer := time.AfterFunc(d, func() {
				late.Store(true)
				cancel()
			})
			defer timer.Stop()
		}
		resp, err := w.Net.HTTP(p, sent)
		if p != nil && p.Ended {
			park()
		}
		if err != nil && late.Load() {
			err = errors.New("net/http: timeout awaiting response headers")
		}
		if resp != nil {
			resp.Request = req
		}
		return resp, err, true
	}
	if t != http.DefaultTransport {
		return nil, nil, false
	}
	id := dstrt.Proc()
	own := w.Net.transports[id]
	if own == nil {
		own = NewTransport()
		w.Net.transports[id] = own
	}
	resp, err = own.RoundTrip(req)
	return resp, err, true
}

// NewTransport is a real http.Transport over the simulated network.
func NewTransport() *http.Transport {
	return &http.Transport{
		DialContext: (&net.Dialer{Timeout: 30 * time.Second}).DialContext,
		Proxy:       nil, MaxIdleConns: 100, IdleConnTimeout: 90 * time.Second, ExpectContinueTimeout: time.Second,
	}
}

func init() { http.DSTRoundTrip = roundTrip }

// ---- stream connections ----

type segment struct {
	data []byte
	eof  bool
	err  error
}

type half struct { // one direction
	mu      sync.Mutex
	buf     []byte
	eof     bool
	err     error
	changed chan struct{}
	sent    int
	lastAt  time.Time
	stalled bool
	cut     bool
	pending []segment
	blocked int // of them, held back by a partition
	written int
	name    string
}

// cutNow makes everything written from now on disappear.
func (h *half) cutNow() {
	h.mu.Lock()
	h.cut = true
	h.mu.Unlock()
}

// arrive hands the next segment over: first in, first out even when timers of the same instant fire in another order.
func (h *half) arrive() {
	h.mu.Lock()
	s := h.pending[0]
	h.pending = h.pending[1:]
	if h.err == nil && !h.eof {
		h.buf = append(h.buf, s.data...)
		if s.eof {
			h.eof = true
		}
	}
	h.notify()
	h.mu.Unlock()
}

// Partition separates all processes, or heals the network: what was held back arrives.
func (n *Net) Partition(on bool) {
	n.Partitioned = on
	if on {
		n.w.logf("partition")
		return
	}
	n.w.logf("heal")
	for _, p := range n.conns {
		for _, h := range p.dirs {
			for ; h.blocked > 0; h.blocked-- {
				h.arrive()
			}
		}
	}
}

func (h *half) notify() {
	close(h.changed)
	h.changed = make(chan struct{})
}

type pipe struct {
	n        *Net
	id       int
	ends     [2]*conn // client, server
	dirs     [2]*half // client to server, server to client
	reset    bool
	clientID uint32
	serverID uint32
}

type conn struct {
	p         *pipe
	side      int
	in, out   *half
	mu        sync.Mutex
	rdl, wdl  time.Time
	dlChanged chan struct{}
	closed    bool
	owner     uint32
	addr      string
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (n *Net) newPipe(client, server uint32, port string) *pipe {
	n.nconn++
	p := &pipe{n: n, id: n.nconn, clientID: client, serverID: server}
	for i := range p.dirs {
		p.dirs[i] = &half{changed: make(chan struct{}), name: [2]string{"c2s", "s2c"}[i]}
	}
	p.ends[0] = &conn{p: p, side: 0, in: p.dirs[1], out: p.dirs[0], dlChanged: make(chan struct{}), owner: client, addr: fmt.Sprintf("10.0.0.1:%d", 40000+n.nconn)}
	p.ends[1] = &conn{p: p, side: 1, in: p.dirs[0], out: p.dirs[1], dlChanged: make(chan struct{}), owner: server, addr: "10.0.0.2:" + port}
	n.conns = append(n.conns, p)
	return p
}

func (n *Net) latency() time.Duration {
	d := n.MinLat
	if n.Jitter > 0 {
		d += time.Duration(n.w.rng.Int64N(int64(n.Jitter) + 1))
	}
	return d
}

func (p *pipe) faultAt(dir string, from, to int) *NetFault {
	for _, f := range p.n.Faults {
		if f.Kind == "refuse" || f.fired > 0 || (f.Conn != 0 && f.Conn != p.id) || f.Dir != dir {
			continue
		}
		if f.At >= from && f.At < to {
			return f
		}
	}
	return nil
}

func (c *conn) dead() bool {
	p := procByID(dstrt.Proc())
	return p != nil && p.Ended
}

func (c *conn) Write(b []byte) (int, error) {
	if c.dead() {
		park()
	}
	c.mu.Lock()
	closed := c.closed
	wdl := c.wdl
	c.mu.Unlock()
	if closed {
		return 0, net.ErrClosed
	}
	if !wdl.IsZero() && !time.Now().Before(wdl) {
		return 0, os.ErrDeadlineExceeded
	}
	h := c.out
	h.mu.Lock()
	if c.p.reset || h.err != nil {
		h.mu.Unlock()
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
	}
	if h.cut {
		h.mu.Unlock()
		return len(b), nil
	}
	from := h.written
	h.written += len(b)
	h.mu.Unlock()
	data := append([]byte(nil), b...)
	if f := c.p.faultAt(h.name, from, from+len(b)); f != nil {
		f.fired++
		w := c.p.n.w
		w.Stats["net."+f.Kind]++
		w.logf("net %s conn %d %s byte %d", f.Kind, c.p.id, h.name, f.At)
		cut := f.At - from
		switch f.Kind {
		case "reset":
			c.deliver(h, segment{data: data[:cut]})
			h.cutNow()
			c.p.n.w.later(c.p.n.latency(), func() { c.p.abort() })
			return len(b), nil
		case "close":
			c.deliver(h, segment{data: data[:cut]})
			c.deliver(h, segment{eof: true})
			h.cutNow()
			c.p.n.w.later(c.p.n.latency()+c.p.n.MinLat, func() { c.p.abort() })
			return len(b), nil
		case "stall", "slow":
			c.deliver(h, segment{data: data[:cut]})
			h.mu.Lock()
			h.lastAt = maxTime(h.lastAt, time.Now()).Add(time.Duration(f.Arg))
			h.mu.Unlock()
			c.deliver(h, segment{data: data[cut:]})
			return len(b), nil
		case "hang":
			c.deliver(h, segment{data: data[:cut]})
			h.mu.Lock()
			h.stalled = true
			h.mu.Unlock()
			return len(b), nil
		}
	}
	c.deliver(h, segment{data: data})
	return len(b), nil
}

func maxTime(a, b time.Time) time.Time {
	if a.After(b) {
		return a
	}
	return b
}

// later runs fn after d of simulated time as part of the world.
func (w *World) later(d time.Duration, fn func()) {
	old := dstrt.Proc()
	dstrt.SetProc(0)
	time.AfterFunc(d, fn)
	dstrt.SetProc(old)
}

func (c *conn) deliver(h *half, s segment) {
	n := c.p.n
	var parts []segment
	if n.Chunk > 0 && len(s.data) > n.Chunk {
		for len(s.data) > 0 {
			k := 1 + int(n.w.rng.Uint32()%uint32(n.Chunk))
			if k > len(s.data) {
				k = len(s.data)
			}
			parts = append(parts, segment{data: s.data[:k]})
			s.data = s.data[k:]
		}
	} else {
		parts = []segment{s}
	}
	for _, s := range parts {
		h.mu.Lock()
		if h.stalled || h.cut {
			h.mu.Unlock()
			return
		}
		at := maxTime(h.lastAt, time.Now().Add(n.latency()))
		h.lastAt = at
		h.pending = append(h.pending, s)
		h.mu.Unlock()
		n.w.later(time.Until(at), func() {
			if n.Partitioned {
				h.blocked++
				return
			}
			h.arrive()
		})
	}
}

func (p *pipe) abort() {
	p.reset = true
	for _, h := range p.dirs {
		h.mu.Lock()
		if h.err == nil {
			h.err = &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
		}
		h.notify()
		h.mu.Unlock()
	}
}

func (c *conn) Read(b []byte) (int, error) {
	for {
		if c.dead() {
			park()
		}
		c.mu.Lock()
		closed, rdl, dl := c.closed, c.rdl, c.dlChanged
		c.mu.Unlock()
		if closed {
			return 0, net.ErrClosed
		}
		if !rdl.IsZero() && !time.Now().Before(rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		h := c.in
		h.mu.Lock()
		if len(b) == 0 {
			h.mu.Unlock()
			return 0, nil
		}
		if len(h.buf) > 0 {
			n := copy(b, h.buf)
			h.buf = h.buf[n:]
			h.mu.Unlock()
			return n, nil
		}
		if h.err != nil {
			err := h.err
			h.mu.Unlock()
			return 0, err
		}
		if h.eof {
			h.mu.Unlock()
			return 0, io.EOF
		}
		ch := h.changed
		h.mu.Unlock()
		var timer <-chan time.Time
		var t *time.Timer
		if !rdl.IsZero() {
			t = time.NewTimer(time.Until(rdl))
			timer = t.C
		}
		select {
		case <-ch:
		case <-dl:
		case <-timer:
		}
		if t != nil {
			t.Stop()
		}
	}
}

func (c *conn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return net.ErrClosed
	}
	c.closed = true
	close(c.dlChanged)
	c.dlChanged = make(chan struct{})
	c.mu.Unlock()
	if !c.p.reset {
		c.deliver(c.out, segment{eof: true})
	}
	return nil
}

func (c *conn) LocalAddr() net.Addr  { return addr(c.addr) }
func (c *conn) RemoteAddr() net.Addr { return addr(c.p.ends[1-c.side].addr) }
func (c *conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.rdl = t
	close(c.dlChanged)
	c.dlChanged = make(chan struct{})
	return nil
}
func (c *conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdl = t
	return nil
}

type listener struct {
	n      *Net
	host   string
	port   string
	owner  uint32
	queue  chan *conn
	done   chan struct{}
	closed bool
	openAt time.Time
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.queue:
		if p := procByID(dstrt.Proc()); p != nil && p.Ended {
			park()
		}
		return c, nil
	case <-l.done:
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
}

func (l *listener) Close() error {
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	close(l.done)
	if l.n.listeners[l.port] == l {
		delete(l.n.listeners, l.port)
	}
	return nil
}

func (l *listener) Addr() net.Addr { return addr("0.0.0.0:" + l.port) }

func listenHook(network, address string) (any, error) {
	w := cur
	if w.Net == nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EACCES}
	}
	n := w.Net
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	if n.BindFail != 0 {
		w.Stats["net.bindfail"]++
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", n.BindFail)}
	}
	if n.listeners[port] != nil {
		w.Stats["net.addrinuse"]++
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &listener{n: n, host: host, port: port, owner: dstrt.Proc(), queue: make(chan *conn, 128), done: make(chan struct{}), openAt: time.Now().Add(n.ListenDelay)}
	n.listeners[port] = l
	w.logf("listen %s", port)
	return l, nil
}

// loopback tells whether a host is reachable from its own machine only. Clients that use another name run elsewhere.
func loopback(host string) bool {
	return host == "localhost" || host == "::1" || strings.HasPrefix(host, "127.")
}

func dialHook(network, address string) (any, error) {
	c, err := dialCtx(context.Background(), network, address)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func dialCtx(ctx context.Context, network, address string) (net.Conn, error) {
	w := cur
	n := w.Net
	if n == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: syscall.ENETUNREACH}
	}
	n.dials++
	d := n.dials
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	time.Sleep(n.latency())
	if p := procByID(dstrt.Proc()); p != nil && p.Ended {
		park()
	}
	for _, f := range n.Faults {
		if f.Kind == "refuse" && f.fired == 0 && f.Conn == d {
			f.fired++
			w.Stats["net.refuse"]++
			w.logf("net refuse dial %d", d)
			return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
		}
	}
	if n.Partitioned {
		w.Stats["net.partition"]++
		time.Sleep(30 * time.Second)
		if n.Partitioned {
			return nil, &net.OpError{Op: "dial", Net: network, Err: os.ErrDeadlineExceeded}
		}
	}
	l := n.listeners[port]
	if l == nil || time.Now().Before(l.openAt) || loopback(l.host) && !loopback(host) {
		w.logf("dial %s refused", port)
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	p := n.newPipe(dstrt.Proc(), l.owner, port)
	select {
	case l.queue <- p.ends[1]:
	default:
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	return p.ends[0], nil
}

// procEnded closes the sockets of an ended process, as a kernel does.
func (n *Net) procEnded(p *Proc) {
	var ports []string
	for port, l := range n.listeners {
		if l.owner == p.ID {
			ports = append(ports, port)
		}
	}
	for _, port := range ports {
		delete(n.listeners, port)
	}
	for _, c := range n.conns {
		if (c.clientID == p.ID || c.serverID == p.ID) && !c.reset {
			if p.Crashed {
				c.abort()
			} else {
				side := 0
				if c.serverID == p.ID {
					side = 1
				}
				e := c.ends[side]
				if !e.closed {
					e.deliver(e.out, segment{eof: true})
				}
			}
		}
	}
}
