package sim

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"net"
	"net/http"
	"slices"
	"sort"
	"strings"
	"time"

	srv "github.com/webrpc/webrpc/zz_dst/p0/tests/server"
	cli "github.com/webrpc/webrpc/zz_dst/p1/tests/client"
)

// The scenarios of C14 and C15: the generated client and server of tests/schema/test.ridl over the simulated network.

type rpcCall struct {
	Method   string
	Outcome  string // value, declared, plain, wrapped, panic, reject
	Seed     uint64 // of argument or result
	Err      int    // which declared error
	Cause    string
	Delay    time.Duration // in the handler
	Gap      time.Duration // before the call
	Deadline time.Duration // 0: none
	Cancel   time.Duration // 0: never
}

type rpcRaw struct {
	At     time.Duration
	Reqs   []rpcRawReq
	Vanish int           // close after that many bytes of the last request; 0: no
	Pause  time.Duration // between pieces
	Piece  int           // bytes per piece; 0: all at once
}

type rpcRawReq struct {
	Kind string
	Seed uint64
}

type rpcBody struct {
	S          Sched
	Workers    [][]rpcCall
	Raws       []rpcRaw
	MinLat     time.Duration
	Jitter     time.Duration
	Chunk      int
	Faults     []NetFault
	Partitions [][2]time.Duration
	Crashes    [][2]time.Duration // when, for how long
	Share      bool               // one client for all workers
	Recover    bool               // a middleware around the server recovers panics
}

var rpcErrs = []srv.WebRPCError{srv.ErrUnauthorized, srv.ErrExpiredToken, srv.ErrAccessDenied, srv.ErrMissingArgument, srv.ErrUnexpectedValue, srv.ErrRateLimited, srv.ErrDatabaseDown, srv.ErrNotImplemented, srv.ErrUserNotFound, srv.ErrFileType}

var rpcStrings = []string{"", "a", "one", "\x00\x01\x1f", "\"quoted\" \\back", "<script>&amp;</script>", "žluťoučký 🐎", "\u2028\u2029", strings.Repeat("long ", 900), "null", "{}", "\ufeffbom", "a\nb\r\n\r\nHTTP/1.1 200 OK"}

func rpcRand(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, 77)) }

func rpcSimple(r *rand.Rand) *srv.Simple {
	if r.IntN(12) == 0 {
		return nil
	}
	return &srv.Simple{Id: pick(r, []int{0, 1, -1, 1 << 62, -1 << 63, r.IntN(1000)}), Name: pick(r, rpcStrings)}
}

func rpcAny(r *rand.Rand, depth int) any {
	switch k := r.IntN(7); {
	case k == 0:
		return nil
	case k == 1:
		return r.IntN(2) == 0
	case k == 2:
		return float64(r.IntN(1<<30)) / 4
	case k == 3 && depth > 0:
		m := map[string]any{}
		for i := r.IntN(3); i > 0; i-- {
			m[pick(r, rpcStrings)] = rpcAny(r, depth-1)
		}
		return m
	case k == 4 && depth > 0:
		l := []any{}
		for i := r.IntN(3); i > 0; i-- {
			l = append(l, rpcAny(r, depth-1))
		}
		return l
	}
	return pick(r, rpcStrings)
}

func rpcUser(r *rand.Rand) *srv.User {
	if r.IntN(8) == 0 {
		return nil
	}
	return &srv.User{ID: pick(r, []uint64{0, 1, 1<<64 - 1, 1 << 53, 1<<53 + 1}), Username: pick(r, rpcStrings), Role: pick(r, rpcStrings)}
}

func rpcComplex(r *rand.Rand) *srv.Complex {
	if r.IntN(12) == 0 {
		return nil
	}
	c := &srv.Complex{Status: srv.Status(r.IntN(2)), User: rpcUser(r)}
	few := func(fn func()) bool {
		if r.IntN(4) == 0 {
			return false
		}
		for i := r.IntN(4); i > 0; i-- {
			fn()
		}
		return true
	}
	if few(func() {}) {
		c.Meta = map[string]any{}
		few(func() { c.Meta[pick(r, rpcStrings)] = rpcAny(r, 3) })
	}
	if few(func() {}) {
		c.MetaNestedExample = map[string]map[string]uint32{}
		few(func() { c.MetaNestedExample[pick(r, rpcStrings)] = map[string]uint32{pick(r, rpcStrings): r.Uint32()} })
	}
	few(func() { c.NamesList = append(c.NamesList, pick(r, rpcStrings)) })
	few(func() { c.NumsList = append(c.NumsList, pick(r, []int64{0, -1, 1<<63 - 1, -1 << 63, 1<<53 + 1})) })
	few(func() { c.DoubleArray = append(c.DoubleArray, []string{pick(r, rpcStrings)}, nil, []string{}) })
	few(func() { c.ListOfMaps = append(c.ListOfMaps, map[string]uint32{pick(r, rpcStrings): r.Uint32()}) })
	few(func() { c.ListOfUsers = append(c.ListOfUsers, rpcUser(r)) })
	if few(func() {}) {
		c.MapOfUsers = map[string]*srv.User{}
		few(func() { c.MapOfUsers[pick(r, rpcStrings)] = rpcUser(r) })
	}
	return c
}

func rpcEnums(r *rand.Rand) ([]srv.Status, map[srv.Access]uint64) {
	var l []srv.Status
	for i := r.IntN(5); i > 0; i-- {
		l = append(l, srv.Status(r.IntN(2)))
	}
	m := map[srv.Access]uint64{}
	for i := r.IntN(5); i > 0; i-- {
		m[srv.Access(r.IntN(5))] = pick(r, []uint64{0, 1, 1<<64 - 1, 1<<53 + 1})
	}
	return l, m
}

func jsonOf(v ...any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unencodable: " + err.Error()
	}
	return string(b)
}

// payload is what travels in a call: the argument of a Send method, the result of a Get method.
func (c *rpcCall) payload() string {
	r := rpcRand(c.Seed)
	switch c.Method {
	case "GetOne", "SendOne":
		return jsonOf(rpcSimple(r))
	case "GetMulti", "SendMulti":
		return jsonOf(rpcSimple(r), rpcSimple(r), rpcSimple(r))
	case "GetComplex", "SendComplex":
		return jsonOf(rpcComplex(r))
	case "GetEnumList":
		l, _ := rpcEnums(r)
		return jsonOf(l)
	case "GetEnumMap":
		_, m := rpcEnums(r)
		return jsonOf(m)
	case "GetSchemaError":
		return jsonOf(int(int32(c.Seed)))
	}
	return jsonOf()
}

// rpcState is what the simulation knows about all calls.
type rpcState struct {
	w     *World
	calls map[string]*rpcCall
	execs map[string]int
	ends  map[string]int
	res   *Result
}

type rpcHandler struct{ st *rpcState }

type rpcKey struct{}

func (h rpcHandler) do(ctx context.Context, method string, got string) (*rpcCall, error) {
	id := ""
	if r := srv.RequestFromContext(ctx); r != nil {
		id = r.Header.Get("X-Call")
	}
	c := h.st.calls[id]
	if c == nil {
		return &rpcCall{Method: method, Outcome: "value", Seed: 1}, nil
	}
	h.st.execs[id]++
	if c.Method != method || srv.MethodNameFromContext(ctx) != method || srv.ServiceNameFromContext(ctx) != "TestApi" {
		h.st.res.Fail("wrong-method", "call %s of %s ran %s (%s)", id, c.Method, method, srv.MethodNameFromContext(ctx))
	}
	if strings.HasPrefix(method, "Send") || method == "GetSchemaError" {
		if want := c.payload(); got != want {
			h.st.res.Fail("wrong-argument", "call %s: the handler of %s got %s, sent was %s", id, method, trimText(got, 300), trimText(want, 300))
		}
	}
	time.Sleep(c.Delay)
	h.st.ends[id]++
	switch c.Outcome {
	case "declared":
		e := rpcErrs[c.Err%len(rpcErrs)]
		if c.Cause != "" {
			return c, e.WithCausef("%s", c.Cause)
		}
		return c, e
	case "plain":
		return c, errors.New("plain " + c.Cause)
	case "wrapped":
		return c, fmt.Errorf("while working: %w", rpcErrs[c.Err%len(rpcErrs)])
	case "panic":
		panic("handler panics: " + c.Cause)
	}
	return c, nil
}

func (h rpcHandler) GetEmpty(ctx context.Context) error {
	_, err := h.do(ctx, "GetEmpty", "")
	return err
}
func (h rpcHandler) GetError(ctx context.Context) error {
	_, err := h.do(ctx, "GetError", "")
	return err
}
func (h rpcHandler) GetOne(ctx context.Context) (*srv.Simple, error) {
	c, err := h.do(ctx, "GetOne", "")
	if err != nil {
		return nil, err
	}
	return rpcSimple(rpcRand(c.Seed)), nil
}
func (h rpcHandler) SendOne(ctx context.Context, one *srv.Simple) error {
	_, err := h.do(ctx, "SendOne", jsonOf(one))
	return err
}
func (h rpcHandler) GetMulti(ctx context.Context) (*srv.Simple, *srv.Simple, *srv.Simple, error) {
	c, err := h.do(ctx, "GetMulti", "")
	if err != nil {
		return nil, nil, nil, err
	}
	r := rpcRand(c.Seed)
	return rpcSimple(r), rpcSimple(r), rpcSimple(r), nil
}
func (h rpcHandler) SendMulti(ctx context.Context, one, two, three *srv.Simple) error {
	_, err := h.do(ctx, "SendMulti", jsonOf(one, two, three))
	return err
}
func (h rpcHandler) GetComplex(ctx context.Context) (*srv.Complex, error) {
	c, err := h.do(ctx, "GetComplex", "")
	if err != nil {
		return nil, err
	}
	return rpcComplex(rpcRand(c.Seed)), nil
}
func (h rpcHandler) SendComplex(ctx context.Context, v *srv.Complex) error {
	_, err := h.do(ctx, "SendComplex", jsonOf(v))
	return err
}
func (h rpcHandler) GetEnumList(ctx context.Context) ([]srv.Status, error) {
	c, err := h.do(ctx, "GetEnumList", "")
	if err != nil {
		return nil, err
	}
	l, _ := rpcEnums(rpcRand(c.Seed))
	return l, nil
}
func (h rpcHandler) GetEnumMap(ctx context.Context) (map[srv.Access]uint64, error) {
	c, err := h.do(ctx, "GetEnumMap", "")
	if err != nil {
		return nil, err
	}
	_, m := rpcEnums(rpcRand(c.Seed))
	return m, nil
}
func (h rpcHandler) GetSchemaError(ctx context.Context, code int) error {
	_, err := h.do(ctx, "GetSchemaError", jsonOf(code))
	return err
}

// expect is the error a client sees when nothing goes wrong on the way; ok for a value.
func (c *rpcCall) expect() (want srv.WebRPCError, ok bool) {
	switch c.Outcome {
	case "declared":
		e := rpcErrs[c.Err%len(rpcErrs)]
		e.Cause = c.Cause
		return e, false
	case "plain":
		e := srv.ErrWebrpcEndpoint
		e.Cause = "plain " + c.Cause
		return e, false
	case "wrapped":
		e := srv.ErrWebrpcEndpoint
		e.Cause = fmt.Sprintf("while working: %v", rpcErrs[c.Err%len(rpcErrs)])
		return e, false
	case "reject":
		e := rpcErrs[c.Err%len(rpcErrs)]
		e.Cause = "rejected"
		return e, false
	}
	return want, true
}

// results tells whether the answer to the method carries anything.
func (c *rpcCall) results() bool {
	return strings.HasPrefix(c.Method, "Get") && c.Method != "GetEmpty" && c.Method != "GetError" && c.Method != "GetSchemaError"
}

// foreign answers a call with something that is no answer of a webrpc server, as a proxy in between may do.
func (c *rpcCall) foreign(hw http.ResponseWriter) {
	k := c.Seed % 7
	if !c.results() {
		k %= 4
	}
	switch k {
	case 0:
		hw.Header().Set("Content-Type", "text/html")
		hw.WriteHeader([]int{502, 503, 504, 404, 500, 403, 400, 201, 206}[c.Err%9])
		io.WriteString(hw, "<html>something else</html>")
	case 1:
		hw.WriteHeader(500)
	case 2:
		if hj, _, err := hw.(http.Hijacker).Hijack(); err == nil {
			hj.Close()
		}
	case 3:
		hw.WriteHeader(503)
		io.WriteString(hw, `{"error":"DatabaseDown","code":101,"msg":"service out`)
	case 4:
		io.WriteString(hw, `{"one":{"id":1,"na`)
	case 5:
		io.WriteString(hw, "<html>welcome</html>")
	case 6:
		hw.Header().Set("Content-Length", "100")
		io.WriteString(hw, `{"one":null}`)
	}
}

// invoke makes a call and gives its result as JSON.
func (c *rpcCall) invoke(ctx context.Context, api cli.TestApiClient) (string, error) {
	arg := func(v any, into any) {
		json.Unmarshal([]byte(jsonOf(v)[1:len(jsonOf(v))-1]), into)
	}
	r := rpcRand(c.Seed)
	simple := func() (o *cli.Simple) { arg(rpcSimple(r), &o); return }
	switch c.Method {
	case "GetEmpty":
		return jsonOf(), api.GetEmpty(ctx)
	case "GetError":
		return jsonOf(), api.GetError(ctx)
	case "GetOne":
		v, err := api.GetOne(ctx)
		return jsonOf(v), err
	case "SendOne":
		return jsonOf(), api.SendOne(ctx, simple())
	case "GetMulti":
		x, y, z, err := api.GetMulti(ctx)
		return jsonOf(x, y, z), err
	case "SendMulti":
		return jsonOf(), api.SendMulti(ctx, simple(), simple(), simple())
	case "GetComplex":
		v, err := api.GetComplex(ctx)
		return jsonOf(v), err
	case "SendComplex":
		var o *cli.Complex
		arg(rpcComplex(r), &o)
		return jsonOf(), api.SendComplex(ctx, o)
	case "GetEnumList":
		v, err := api.GetEnumList(ctx)
		return jsonOf(v), err
	case "GetEnumMap":
		v, err := api.GetEnumMap(ctx)
		return jsonOf(v), err
	}
	return jsonOf(), api.GetSchemaError(ctx, int(int32(c.Seed)))
}

func genRPCCall(r *rand.Rand) rpcCall {
	c := rpcCall{Method: pick(r, confMethods), Outcome: pick(r, []string{"value", "value", "value", "value", "declared", "plain", "wrapped", "panic", "reject", "foreign"}), Seed: r.Uint64(), Err: r.IntN(len(rpcErrs)), Cause: pick(r, rpcStrings)}
	if r.IntN(2) == 0 {
		c.Delay = time.Duration(r.IntN(300)) * time.Millisecond
	}
	if r.IntN(3) == 0 {
		c.Gap = time.Duration(r.IntN(500)) * time.Millisecond
	}
	return c
}

func genRPCNet(r *rand.Rand, b *rpcBody) {
	b.MinLat = time.Duration(1+r.IntN(8)) * time.Millisecond
	if r.IntN(3) == 0 {
		b.Jitter = time.Duration(r.IntN(60)) * time.Millisecond
	}
	if r.IntN(3) == 0 {
		b.Chunk = 1 + r.IntN(300)
	}
	b.Share, b.Recover = r.IntN(2) == 0, r.IntN(2) == 0
}

func genRPC(r *rand.Rand, tier string) any {
	b := &rpcBody{S: genSched(r)}
	genRPCNet(r, b)
	for i := 1 + r.IntN(4); i > 0; i-- {
		var l []rpcCall
		for j := 1 + r.IntN(6); j > 0; j-- {
			c := genRPCCall(r)
			switch r.IntN(8) {
			case 0:
				c.Deadline = 1 + time.Duration(r.IntN(400))*time.Millisecond
			case 1:
				c.Cancel = 1 + time.Duration(r.IntN(400))*time.Millisecond
			}
			l = append(l, c)
		}
		b.Workers = append(b.Workers, l)
	}
	if r.IntN(3) > 0 {
		for i := r.IntN(4); i > 0; i-- {
			f := genNetFault(r)
			f.Conn = 1 + r.IntN(8)
			f.At = r.IntN(1500)
			b.Faults = append(b.Faults, f)
		}
	}
	if r.IntN(5) == 0 {
		b.Partitions = append(b.Partitions, [2]time.Duration{time.Duration(r.IntN(1500)) * time.Millisecond, time.Duration(r.IntN(40000)) * time.Millisecond})
	}
	for i := r.IntN(4) - 1; i > 0; i-- {
		b.Crashes = append(b.Crashes, [2]time.Duration{time.Duration(r.IntN(1500)) * time.Millisecond, time.Duration(r.IntN(800)) * time.Millisecond})
	}
	return b
}

var rawKinds = []string{"good", "goodchunked", "goodtype", "expect", "badroute", "rootroute", "get", "put", "head", "options", "notype", "badtype", "badjson", "wrongjson", "emptybody", "deepjson", "nulljson", "extra", "panic", "declared", "badhttp", "hugehead", "badlength"}

func genServe(r *rand.Rand, tier string) any {
	b := &rpcBody{S: genSched(r)}
	genRPCNet(r, b)
	for i := 1 + r.IntN(3); i > 0; i-- {
		var l []rpcCall
		for j := 1 + r.IntN(5); j > 0; j-- {
			l = append(l, genRPCCall(r))
		}
		b.Workers = append(b.Workers, l)
	}
	for i := 1 + r.IntN(5); i > 0; i-- {
		q := rpcRaw{At: time.Duration(r.IntN(1500)) * time.Millisecond}
		for j := 1 + r.IntN(3); j > 0; j-- {
			q.Reqs = append(q.Reqs, rpcRawReq{Kind: pick(r, rawKinds), Seed: r.Uint64()})
		}
		if r.IntN(3) == 0 {
			q.Piece, q.Pause = 1+r.IntN(80), time.Duration(r.IntN(400))*time.Millisecond
		}
		if r.IntN(4) == 0 {
			q.Vanish = 1 + r.IntN(300)
		}
		b.Raws = append(b.Raws, q)
	}
	return b
}

// rawWant is the documented answer to a raw request: status and error name; status 0: the connection may also end.
type rawWant struct {
	status int
	name   string
	closes bool // the connection may or must end afterwards
	any    bool // answered by the HTTP library, not by webrpc
	nobody bool
}

func (q rpcRawReq) render() (string, rawWant) {
	r := rpcRand(q.Seed)
	one := jsonOf(rpcSimple(r))
	body := `{"one":` + one[1:len(one)-1] + `}`
	head := func(method, path, ctype string) string {
		h := method + " " + path + " HTTP/1.1\r\nHost: localhost:9988\r\n"
		if ctype != "" {
			h += "Content-Type: " + ctype + "\r\n"
		}
		return h
	}
	const send, js = "/rpc/TestApi/SendOne", "application/json"
	full := func(h, body string) string { return h + fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body) }
	bad := rawWant{status: 400, name: "WebrpcBadRequest"}
	switch q.Kind {
	case "good":
		return full(head("POST", send, js), body), rawWant{status: 200}
	case "goodchunked":
		k := len(body) / 2
		return head("POST", send, js) + "Transfer-Encoding: chunked\r\n\r\n" + fmt.Sprintf("%x\r\n%s\r\n%x\r\n%s\r\n0\r\n\r\n", k, body[:k], len(body)-k, body[k:]), rawWant{status: 200}
	case "goodtype":
		return full(head("POST", send, pick(r, []string{"application/json; charset=utf-8", "APPLICATION/JSON", " application/json ;x=y"})), body), rawWant{status: 200}
	case "expect":
		return full(head("POST", send, js)+"Expect: 100-continue\r\n", body), rawWant{status: 200}
	case "badroute":
		return full(head(pick(r, []string{"POST", "GET"}), pick(r, []string{"/rpc/TestApi/Nothing", "/rpc/testapi/SendOne", "/TestApi/SendOne", "/rpc/TestApi/SendOne/x", "/rpc/TestApi/"}), js), body), rawWant{status: 404, name: "WebrpcBadRoute"}
	case "rootroute":
		return full(head("POST", pick(r, []string{"/", "/rpc", "/rpc//TestApi/SendOne", "/rpc/TestApi/SendOne/", "/../rpc/TestApi/SendOne"}), js), body), rawWant{status: 404, name: "WebrpcBadRoute"}
	case "get":
		return head("GET", send, js) + "\r\n", rawWant{status: 405, name: "WebrpcBadMethod"}
	case "put":
		return full(head(pick(r, []string{"PUT", "DELETE", "PATCH", "post"}), send, js), body), rawWant{status: 405, name: "WebrpcBadMethod"}
	case "head":
		return head("HEAD", send, js) + "\r\n", rawWant{status: 405, nobody: true}
	case "options":
		return head("OPTIONS", send, "") + "\r\n", rawWant{status: 405, name: "WebrpcBadMethod"}
	case "notype":
		return full(head("POST", send, ""), body), bad
	case "badtype":
		return full(head("POST", send, pick(r, []string{"text/plain", "application/jsonx", "application/x-ndjson", ";", "json", "text/html; application/json"})), body), bad
	case "badjson":
		return full(head("POST", send, js), body[:len(body)-1-r.IntN(len(body)-1)]), bad
	case "wrongjson":
		return full(head("POST", send, js), pick(r, []string{`{"one":5}`, `{"one":{"id":"x","name":"n"}}`, `{"one":{"id":1e99,"name":"n"}}`, `[]`, `"text"`, `{"one":[]}`, body + "x", `{"one":{"name":5}}`})), bad
	case "emptybody":
		return full(head("POST", send, js), pick(r, []string{"", " ", "\n\n"})), bad
	case "deepjson":
		return full(head("POST", send, js), `{"one":`+strings.Repeat("[", 20000)), bad
	case "nulljson":
		return full(head("POST", send, js), pick(r, []string{`null`, `{}`, `{"one":null}`})), rawWant{status: 200}
	case "extra":
		return full(head("POST", send, js), `{"zero":[1,{"a":null}],`+body[1:]), rawWant{status: 200}
	case "panic":
		return full(head("POST", "/rpc/TestApi/GetOne", js)+"X-Call: panic\r\n", "{}"), rawWant{status: 500, name: "WebrpcServerPanic", closes: true}
	case "declared":
		return full(head("POST", "/rpc/TestApi/GetOne", js)+"X-Call: declared\r\n", "{}"), rawWant{status: 403, name: "AccessDenied"}
	case "badhttp":
		return pick(r, []string{"garbage\r\n\r\n", "POST\r\n\r\n", "POST / HTTP/9.9\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03\r\n\r\n"}), rawWant{any: true, closes: true}
	case "hugehead":
		return head("POST", send, js) + "X-Big: " + strings.Repeat("x", 1<<20+9000) + "\r\n\r\n", rawWant{any: true, closes: true}
	case "badlength":
		return head("POST", send, js) + "Content-Length: -5\r\n\r\n", rawWant{any: true, closes: true}
	}
	return full(head("POST", send, js), body), rawWant{status: 200}
}

func (b *rpcBody) clamp() {
	n := 0
	for i := range b.Workers {
		for j := range b.Workers[i] {
			c := &b.Workers[i][j]
			if c.Method == "" {
				c.Method = "GetEmpty"
			}
			if c.Outcome == "" {
				c.Outcome = "value"
			}
			c.Err = max(c.Err, 0)
			n++
		}
	}
	b.MinLat = max(b.MinLat, time.Millisecond)
	b.Jitter = max(b.Jitter, 0)
}

func execRPC(bb any, res *Result) {
	b := bb.(*rpcBody)
	b.clamp()
	w := &World{S: b.S, Budget: 100_000_000}
	n := w.UseNet()
	n.MinLat, n.Jitter, n.Chunk = b.MinLat, b.Jitter, b.Chunk
	for i := range b.Faults {
		f := b.Faults[i]
		n.Faults = append(n.Faults, &f)
	}
	var note []string
	var sum strings.Builder
	out := RunWorld(w, func(w *World) {
		st := &rpcState{w: w, calls: map[string]*rpcCall{}, execs: map[string]int{}, ends: map[string]int{}, res: res}
		st.calls["panic"] = &rpcCall{Method: "GetOne", Outcome: "panic"}
		st.calls["declared"] = &rpcCall{Method: "GetOne", Outcome: "declared", Err: 2}
		t0 := time.Now()
		servers := 0
		startServer := func() *Proc {
			servers++
			return w.Spawn(fmt.Sprintf("server%d", servers), 0, func() {
				l, err := net.Listen("tcp", "0.0.0.0:9988")
				if err != nil {
					return
				}
				h := srv.NewTestApiServer(rpcHandler{st}, &srv.Options{OnRequest: func(hw http.ResponseWriter, r *http.Request) error {
					if c := st.calls[r.Header.Get("X-Call")]; c != nil && c.Outcome == "reject" {
						return rpcErrs[c.Err%len(rpcErrs)].WithCausef("rejected")
					}
					return nil
				}})
				(&http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(hw http.ResponseWriter, r *http.Request) {
					if b.Recover {
						defer func() { recover() }()
					}
					if c := st.calls[r.Header.Get("X-Call")]; c != nil && c.Outcome == "foreign" {
						w.Stats["rpc.foreign"]++
						c.foreign(hw)
						return
					}
					h.ServeHTTP(hw, r)
				})}).Serve(l)
			})
		}
		server := startServer()
		time.Sleep(time.Millisecond)
		for _, c := range b.Crashes {
			c := c
			w.later(c[0], func() {
				if server.Ended {
					return
				}
				w.logf("server crash")
				w.Kill(server)
				w.later(c[1]+1, func() {
					if server.Ended {
						server = startServer()
					}
				})
			})
			note = append(note, fmt.Sprintf("crash at %v for %v", c[0], c[1]))
		}
		for _, q := range b.Partitions {
			w.later(q[0], func() { n.Partition(true) })
			w.later(q[0]+q[1], func() { n.Partition(false) })
			note = append(note, fmt.Sprintf("partition %v+%v", q[0], q[1]))
		}
		recovered := false
		clean := func() bool {
			if recovered {
				return true
			}
			if len(b.Partitions)+len(b.Crashes) > 0 {
				return false
			}
			for _, f := range n.Faults {
				if f.fired > 0 {
					return false
				}
			}
			return true
		}
		bound := 400*time.Millisecond + 40*(n.MinLat+n.Jitter)
		finished := 0
		workers := 0
		worker := func(id int, calls []rpcCall, api cli.TestApiClient, done chan struct{}) {
			defer close(done)
			for k := range calls {
				c := &calls[k]
				name := fmt.Sprintf("w%dc%d", id, k)
				time.Sleep(c.Gap)
				ctx, _ := cli.WithHTTPRequestHeaders(context.Background(), http.Header{"X-Call": {name}})
				cancel := func() {}
				if c.Deadline > 0 {
					ctx, cancel = context.WithTimeout(ctx, c.Deadline)
				} else if c.Cancel > 0 {
					ctx, cancel = context.WithCancel(ctx)
					time.AfterFunc(c.Cancel, cancel)
				}
				start := time.Now()
				got, err := c.invoke(ctx, api)
				took := time.Since(start)
				cancel()
				finished++
				limit := c.Deadline + c.Cancel
				what := fmt.Sprintf("call %s %s (%s)", name, c.Method, c.Outcome)
				w.logf("%s -> %v after %v", what, err != nil, took)
				fmt.Fprint(&sum, c.Method[:4], c.Outcome, err != nil, " ")
				if limit > 0 && took > limit+20*time.Millisecond {
					res.Fail("late-return", "%s returned %v after its context had ended", what, took-limit)
				}
				if x := st.execs[name]; x > 1 {
					res.Fail("executed-twice", "%s: the handler ran %d times", what, x)
				}
				want, value := c.expect()
				if err == nil {
					res.Count("calls_ok", 1)
					if !value || c.Outcome == "panic" || c.Outcome == "foreign" {
						res.Fail("false-success", "%s returned no error", what)
					} else if st.ends[name] != 1 {
						res.Fail("false-success", "%s succeeded although its handler finished %d times", what, st.ends[name])
					} else if c.results() {
						if w := c.payload(); got != w {
							res.Fail("wrong-result", "%s returned %s, the handler gave %s", what, trimText(got, 300), trimText(w, 300))
						}
					}
					continue
				}
				var e cli.WebRPCError
				if !errors.As(err, &e) {
					res.Fail("wrong-error", "%s returned an error of type %T: %v", what, err, err)
					continue
				}
				if c.Outcome == "foreign" && e.Code != -1 && e.Code != -5 {
					res.Fail("wrong-error", "%s returned %v", what, err)
				}
				transport := e.Code == -1 || e.Code == -5
				if transport {
					res.Count("calls_transport_error", 1)
					sure := clean() && (c.Outcome != "panic" || b.Recover) && c.Outcome != "foreign" && (limit == 0 || limit > c.Delay+bound && c.Cancel == 0)
					if sure {
						res.Fail("false-failure", "%s failed although nothing went wrong on the way: %v", what, err)
					}
					continue
				}
				res.Count("calls_answer_error", 1)
				if e.Code == srv.ErrWebrpcBadRequest.Code && !clean() && st.execs[name] == 0 {
					continue // the request was cut on its way
				}
				if c.Outcome == "panic" {
					if e.Code != -6 || e.HTTPStatus != 500 {
						res.Fail("wrong-error", "%s returned %v", what, err)
					}
					continue
				}
				if value {
					res.Fail("wrong-error", "%s returned %v although its handler succeeds", what, err)
					continue
				}
				if e.Code != want.Code || e.Name != want.Name || e.Message != want.Message || e.HTTPStatus != want.HTTPStatus || e.Cause != want.Cause {
					res.Fail("wrong-error", "%s returned %+v, expected %+v", what, e, want)
				}
				if !errors.Is(err, cli.WebRPCError{Code: want.Code}) || (want.Cause != "") != (e.Unwrap() != nil) {
					res.Fail("wrong-error", "%s: the error does not identify itself: %v", what, err)
				}
				if x := st.execs[name]; c.Outcome == "reject" && x != 0 || c.Outcome != "reject" && x != 1 {
					res.Fail("wrong-error", "%s returned the error of its handler, which ran %d times", what, x)
				}
			}
		}
		client := w.Spawn("client", 1, func() {
			var shared cli.TestApiClient
			var dones []chan struct{}
			for i, calls := range b.Workers {
				api := cli.NewTestApiClient("http://localhost:9988", &http.Client{Transport: NewTransport()})
				if b.Share {
					if shared == nil {
						shared = api
					}
					api = shared
				}
				for k := range calls {
					st.calls[fmt.Sprintf("w%dc%d", i, k)] = &calls[k]
				}
				done := make(chan struct{})
				dones = append(dones, done)
				workers++
				go worker(i, calls, api, done)
			}
			for _, d := range dones {
				<-d
			}
		})
		raws := w.Spawn("raw", 2, func() {
			var dones []chan struct{}
			for i := range b.Raws {
				q := b.Raws[i]
				q.At, q.Pause = max(q.At, 0), max(q.Pause, 0)
				done := make(chan struct{})
				dones = append(dones, done)
				go func() {
					defer close(done)
					time.Sleep(q.At)
					q.run(w, res, &sum, bound, b.Recover)
				}()
			}
			for _, d := range dones {
				<-d
			}
		})
		for i := range b.Raws {
			q := b.Raws[i]
			var kinds []string
			for _, x := range q.Reqs {
				kinds = append(kinds, x.Kind)
			}
			note = append(note, fmt.Sprintf("raw %v vanish=%d piece=%d/%v", kinds, q.Vanish, q.Piece, q.Pause))
		}
		limit := time.Now().Add(2 * time.Minute)
		for _, p := range []*Proc{raws, client} {
			if !w.WaitAll(time.Until(limit), p) && clean() {
				res.Fail("hang", "%s has not ended after two minutes", p.Name)
				return
			}
		}
		for _, p := range w.Procs {
			if p.Panic != "" {
				res.Fail("panic", "%s: %s", p.Name, p.Panic)
				return
			}
		}
		for name, x := range st.execs {
			if x > 1 && strings.HasPrefix(name, "w") {
				res.Fail("executed-twice", "the handler of call %s ran %d times", name, x)
			}
		}
		// Once the faults are over a new call gets its answer.
		var over time.Duration
		for _, q := range slices.Concat(b.Partitions, b.Crashes) {
			over = max(over, q[0]+q[1]+time.Millisecond)
		}
		time.Sleep(time.Until(t0.Add(over)))
		n.Partition(false)
		n.Faults = nil
		recovered = true
		if server.Ended {
			if len(b.Crashes) == 0 {
				res.Fail("server-ended", "the server has ended")
				return
			}
			server = startServer()
			time.Sleep(time.Millisecond)
		}
		last := []rpcCall{{Method: "GetComplex", Outcome: "value", Seed: 5}, {Method: "SendMulti", Outcome: "value", Seed: 6}}
		for i := range last {
			name := fmt.Sprintf("w99c%d", i)
			st.calls[name] = &last[i]
		}
		p := w.Spawn("last", 1, func() {
			done := make(chan struct{})
			worker(99, last, cli.NewTestApiClient("http://localhost:9988", &http.Client{Transport: NewTransport()}), done)
		})
		if !w.WaitAll(time.Minute, p) {
			res.Fail("no-recovery", "after all faults a call has not returned within a minute")
		}
	})
	for _, l := range b.Workers {
		for _, c := range l {
			s := c.Method + "/" + c.Outcome
			if c.Deadline > 0 {
				s += fmt.Sprintf(" deadline %v", c.Deadline)
			}
			if c.Cancel > 0 {
				s += fmt.Sprintf(" cancelled %v", c.Cancel)
			}
			note = append(note, s)
		}
	}
	for _, f := range b.Faults {
		note = append(note, fmt.Sprintf("%s conn %d %s byte %d", f.Kind, f.Conn, f.Dir, f.At))
	}
	res.Note = strings.Join(note, "; ")
	res.add(w, out)
	words := strings.Fields(sum.String())
	sort.Strings(words)
	res.NoteState(strings.Join(words, " "))
}

// run sends the requests of one raw connection one after the other and reads what comes back.
func (q *rpcRaw) run(w *World, res *Result, sum *strings.Builder, bound time.Duration, recovers bool) {
	c, err := net.Dial("tcp", "localhost:9988")
	if err != nil {
		res.Fail("unreachable", "the server does not accept connections: %v", err)
		return
	}
	defer c.Close()
	br := bufio.NewReader(c)
	for i, x := range q.Reqs {
		text, want := x.render()
		if x.Kind == "panic" && recovers {
			want.closes = false
		}
		w.Stats["raw."+x.Kind]++
		last := i == len(q.Reqs)-1
		if last && q.Vanish > 0 && q.Vanish < len(text) {
			text = text[:q.Vanish]
		} else if last {
			q.Vanish = 0
		}
		piece := q.Piece
		if piece <= 0 {
			piece = len(text)
		}
		if len(text)/piece > 50 {
			piece = len(text)/50 + 1
		}
		for s := text; len(s) > 0; {
			k := min(piece, len(s))
			if _, err := io.WriteString(c, s[:k]); err != nil {
				break // what was answered is read below
			}
			s = s[k:]
			if len(s) > 0 {
				time.Sleep(q.Pause)
			}
		}
		if last && q.Vanish > 0 {
			w.Stats["raw.vanish"]++
			return
		}
		c.SetReadDeadline(time.Now().Add(10*time.Second + bound))
		method := strings.SplitN(text, " ", 2)[0]
		var resp *http.Response
		for {
			resp, err = http.ReadResponse(br, &http.Request{Method: method})
			if err != nil || resp.StatusCode != 100 {
				break
			}
		}
		what := fmt.Sprintf("request %d (%s)", i, x.Kind)
		if err != nil {
			fmt.Fprint(sum, x.Kind, "-eof ")
			if !want.closes {
				res.Fail("no-response", "%s got no response: %v", what, err)
			}
			return
		}
		body, err := io.ReadAll(resp.Body)
		if err != nil {
			res.Fail("torn-response", "%s got a torn response: %v", what, err)
			return
		}
		fmt.Fprint(sum, x.Kind, resp.StatusCode, " ")
		if want.any {
			return
		}
		if resp.StatusCode != want.status {
			res.Fail("wrong-response", "%s got status %d, expected %d: %s", what, resp.StatusCode, want.status, trimText(string(body), 300))
			return
		}
		if ct := resp.Header.Get("Content-Type"); ct != "application/json" {
			res.Fail("wrong-response", "%s got content type %q", what, ct)
			return
		}
		if resp.Header.Get(srv.WebrpcHeader) != srv.WebrpcHeaderValue {
			res.Fail("wrong-response", "%s got no %s header", what, srv.WebrpcHeader)
			return
		}
		if want.status == 405 && resp.Header.Get("Allow") != "POST" {
			res.Fail("wrong-response", "%s got no Allow header", what)
			return
		}
		if !want.nobody {
			var e srv.WebRPCError
			if err := json.Unmarshal(body, &e); err != nil || (want.name == "") != (e.Name == "") || e.Name != want.name || want.name != "" && e.HTTPStatus != want.status {
				res.Fail("wrong-response", "%s got the body %s", what, trimText(string(body), 300))
				return
			}
		}
		if resp.Close || want.closes {
			return
		}
		// One response only.
		c.SetReadDeadline(time.Now().Add(50 * time.Millisecond))
		if b, _ := br.Peek(1); len(b) > 0 {
			rest, _ := br.Peek(br.Buffered())
			if !bytes.HasPrefix(rest, []byte("HTTP/1.1 408")) {
				res.Fail("second-response", "%s got more than one response: %s", what, trimText(string(rest), 300))
			}
			return
		}
	}
}

func init() {
	real := "tests/client/client.gen.go and tests/server/server.gen.go (generated code), net/http and encoding/json of the Go library"
	stub := "network (simulated connections with delay, cuts, stalls, refusals and partitions), clock, scheduler; handlers are those of the simulation"
	register(&Scenario{Prop: "C14", Gen: genRPC, New: func() any { return &rpcBody{} }, Exec: execRPC, Shrink: autoShrink, Real: real, Stub: stub,
		Rule: "Concurrent workers call the generated server with random payloads, outcomes, deadlines and cancellations while connections are cut, stalled, refused or partitioned and the server crashes and restarts; every result is compared with the record of the handlers."})
	register(&Scenario{Prop: "C15", Gen: genServe, New: func() any { return &rpcBody{} }, Exec: execRPC, Shrink: autoShrink, Real: real, Stub: stub,
		Rule: "Raw connections send well-formed, malformed, slow, pipelined, truncated and panicking requests while other clients make calls; each complete request has to get exactly one response of the documented kind and no call may suffer."})
}
