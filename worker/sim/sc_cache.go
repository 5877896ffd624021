package sim

import (
	dstrt "archive"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"path"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	webrpc0 "github.com/webrpc/webrpc/zz_dst/p0"
	gen0 "github.com/webrpc/webrpc/zz_dst/p0/gen"
	schema0 "github.com/webrpc/webrpc/zz_dst/p0/schema"
	gen1 "github.com/webrpc/webrpc/zz_dst/p1/gen"
	schema1 "github.com/webrpc/webrpc/zz_dst/p1/schema"
	gen2 "github.com/webrpc/webrpc/zz_dst/p2/gen"
	schema2 "github.com/webrpc/webrpc/zz_dst/p2/schema"
)

// The scenario of C10 and C11: generator processes on one machine share the template cache while the simulated
// GitHub publishes new versions and network, disk and processes fail.

// ---- upstream ----

type ufile struct {
	Name  string
	Parts int // definitions in the file
	Pad   int
}

type uver struct {
	Files []ufile // besides main
}

type utarget struct {
	Owner, Repo, Path, Ref string
	Short                  bool // written as the bare name (owner webrpc)
	Vers                   []uver
}

func (t *utarget) spelled() string {
	old := map[string]string{"gen-golang": "go", "gen-typescript": "ts", "gen-javascript": "js"}[t.Repo]
	switch {
	case t.Short && t.Ref == "v0.6.0" && old != "": // as webrpc-gen v0.6.0 called them
		return old
	case t.Short && t.Ref != "":
		return strings.TrimPrefix(t.Repo, "gen-") + "@" + t.Ref
	case t.Short:
		return strings.TrimPrefix(t.Repo, "gen-")
	}
	return t.full()
}

func (t *utarget) full() string {
	s := "github.com/" + t.Owner + "/" + t.Repo
	if t.Path != "" {
		s += "/" + t.Path
	}
	if t.Ref != "" {
		s += "@" + t.Ref
	}
	return s
}

// sameDir tells whether two targets share their cache directory, which depends on a 32 bit hash.
func (t *utarget) sameDir(o *utarget) bool {
	twins := map[string]bool{"hhrkqwe": true, "mxdqyle": true}
	return t.full() == o.full() || (twins[t.Owner] && twins[o.Owner])
}

func (t *utarget) apiRef() string {
	if t.Ref == "" {
		return "trunk"
	}
	return strings.TrimPrefix(strings.TrimPrefix(t.Ref, "heads/"), "tags/")
}

// The names sort after main.go.tmpl, so their definitions replace the defaults of main, and a missing one goes
// unnoticed by the template engine.
var partNames = []string{"methods", "n-types", "server", "types.x", "zz"}

const partsPerFile = 3

func (t *utarget) mainText(v int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "{{- define \"main\" -}}\nbegin %s v%d {{.SchemaName}}\n", t.full(), v)
	for _, n := range partNames {
		for k := 0; k < partsPerFile; k++ {
			fmt.Fprintf(&b, "{{block \"%s%d\" .}}default %s %d v%d\n{{end}}", n, k, n, k, v)
		}
	}
	fmt.Fprintf(&b, "end v%d\n{{- end}}\n", v)
	return b.String()
}

func (t *utarget) partText(v int, f ufile) string {
	var b strings.Builder
	for k := 0; k < f.Parts && k < partsPerFile; k++ {
		fmt.Fprintf(&b, "{{define \"%s%d\"}}%s %s part %d v%d%s\n{{end}}", f.Name, k, t.full(), f.Name, k, v, strings.Repeat(" pad", f.Pad))
	}
	return b.String()
}

// files are the template files of a version by name.
func (t *utarget) files(v int) map[string]string {
	m := map[string]string{"main.go.tmpl": t.mainText(v)}
	for _, f := range t.Vers[v].Files {
		m[f.Name+".go.tmpl"] = t.partText(v, f)
	}
	return m
}

// expected is what a generation with version v gives.
func (t *utarget) expected(v int) string {
	have := map[string]ufile{}
	for _, f := range t.Vers[v].Files {
		have[f.Name] = f
	}
	var b strings.Builder
	fmt.Fprintf(&b, "begin %s v%d Cache\n", t.full(), v)
	for _, n := range partNames {
		f, ok := have[n]
		for k := 0; k < partsPerFile; k++ {
			if ok && k < f.Parts {
				fmt.Fprintf(&b, "%s %s part %d v%d%s\n", t.full(), n, k, v, strings.Repeat(" pad", f.Pad))
			} else {
				fmt.Fprintf(&b, "default %s %d v%d\n", n, k, v)
			}
		}
	}
	fmt.Fprintf(&b, "end v%d", v)
	return b.String()
}

func sha(s string) string {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return fmt.Sprintf("%016x%024x", h, len(s))
}

// ufault is a failure of one request.
type ufault struct {
	Nth  int // 1: the first request of the generation
	Kind string
	Arg  int64
	Rest bool // all later requests as well
}

type upstream struct {
	w       *World
	targets []*utarget
	cur     []int
	rng     *rand.Rand
	lat     time.Duration
	gens    map[string]*cgenRun // by process name
	blobs   map[string]string
}

type failingBody struct {
	r    *bytes.Reader
	left int64
	err  error
	ctx  context.Context // not nil: nothing comes until it ends
}

func (b *failingBody) Read(p []byte) (int, error) {
	if b.left <= 0 {
		if b.ctx != nil {
			<-b.ctx.Done()
			return 0, b.ctx.Err()
		}
		return 0, b.err
	}
	if int64(len(p)) > b.left {
		p = p[:b.left]
	}
	n, err := b.r.Read(p)
	b.left -= int64(n)
	if err == io.EOF && b.ctx == nil {
		return n, b.err
	}
	return n, nil
}

func (b *failingBody) Close() error { return nil }

func (u *upstream) answer(req *http.Request, code int, body string, hdr map[string]string) *http.Response {
	h := http.Header{"Content-Type": {"application/json; charset=utf-8"}}
	for k, v := range hdr {
		h.Set(k, v)
	}
	return &http.Response{Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: req}
}

func (u *upstream) serve(p *Proc, req *http.Request) (*http.Response, error) {
	var g *cgenRun
	if p != nil {
		g = u.gens[p.Name]
	}
	ctx := req.Context()
	pause := func(d time.Duration) bool { // unless the client gives up
		t := time.NewTimer(d)
		defer t.Stop()
		select {
		case <-t.C:
			return true
		case <-ctx.Done():
			if g != nil {
				g.netFault = true
			}
			u.w.Stats["event.fetch_timeout"]++
			return false
		}
	}
	if u.lat > 0 && !pause(time.Duration(u.rng.Int64N(int64(u.lat)))) {
		return nil, ctx.Err()
	}
	var flt *ufault
	if g != nil {
		g.requests++
		for i := range g.plan.Net {
			f := &g.plan.Net[i]
			if f.Nth != g.requests && (!f.Rest || g.requests < f.Nth) {
				continue
			}
			if f.Kind == "slow" {
				u.w.Stats["fault.net-slow"]++
				if !pause(time.Duration(f.Arg)) {
					return nil, ctx.Err()
				}
			} else if flt == nil {
				flt = f
			}
			if f.Rest && f.Kind != "slow" && g.stuck == nil {
				g.stuck = f
			}
		}
	}
	if g != nil && g.stuck != nil {
		flt = g.stuck // what lasts lasts to the end
	}
	u.w.Stats["net.request"]++
	raw := strings.HasPrefix(req.URL.Host, "raw.")
	code, body := u.content(req)
	if code == 200 && flt != nil && !raw && flt.Kind == "redirect" {
		flt = nil // only downloads are redirected
	}
	if flt != nil {
		u.w.Stats["fault.net-"+flt.Kind]++
		if (flt.Kind != "redirect" && flt.Kind != "redirloop") || flt.Rest {
			g.netFault = true
		}
		u.w.logf("%s request %s fault %s", p.Name, req.URL, flt.Kind)
		switch flt.Kind {
		case "refused":
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
		case "reset":
			return nil, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
		case "timeout":
			if !pause(100 * time.Second) {
				return nil, ctx.Err()
			}
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ETIMEDOUT}
		case "500", "502", "503", "404", "401", "429":
			n := 0
			fmt.Sscan(flt.Kind, &n)
			return u.answer(req, n, `{"message":"no"}`, nil), nil
		case "204", "300", "304", "307", "308": // these have no place to go
			n := 0
			fmt.Sscan(flt.Kind, &n)
			return u.answer(req, n, "", nil), nil
		case "206":
			return u.answer(req, 206, body[:len(body)/2], nil), nil
		case "ratelimit":
			return u.answer(req, 403, `{"message":"API rate limit exceeded for 1.2.3.4."}`, map[string]string{"X-RateLimit-Limit": "60", "X-RateLimit-Remaining": "0", "X-RateLimit-Reset": fmt.Sprint(time.Now().Add(time.Hour).Unix())}), nil
		case "cut": // the connection breaks within the body
			r := u.answer(req, code, body, nil)
			n := int64(0)
			if len(body) > 0 {
				n = flt.Arg % int64(len(body))
			}
			r.Body = &failingBody{r: bytes.NewReader([]byte(body)), left: n, err: pickErr(flt.Arg)}
			return r, nil
		case "stall": // no answer ever comes
			pause(10000 * time.Hour)
			return nil, ctx.Err()
		case "stallbody":
			r := u.answer(req, code, body, nil)
			n := int64(0) // at least a byte is missing: who gets all bytes of a JSON document needs no end
			if len(body) > 0 {
				n = flt.Arg % int64(len(body))
			}
			r.Body = &failingBody{r: bytes.NewReader([]byte(body)), left: n, ctx: ctx}
			return r, nil
		case "redirect":
			return u.answer(req, 302, "", map[string]string{"Location": req.URL.String() + "?moved=1"}), nil
		case "redirloop":
			return u.answer(req, 302, "", map[string]string{"Location": req.URL.String()}), nil
		case "html":
			if raw {
				return u.answer(req, 503, "<html>", nil), nil
			}
			return u.answer(req, 200, "<html><body>sign in</body></html>", nil), nil
		case "empty":
			if raw || !strings.Contains(req.URL.Path, "/contents/") {
				return u.answer(req, 503, "", nil), nil
			}
			return u.answer(req, 200, "", nil), nil
		default:
			u.w.Harness = "unknown network fault " + flt.Kind
		}
	}
	u.w.logf("%s request %s -> %d", p.Name, req.URL, code)
	return u.answer(req, code, body, nil), nil
}

func pickErr(n int64) error {
	if n%2 == 0 {
		return io.ErrUnexpectedEOF
	}
	return &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
}

// content is the answer of a working GitHub.
func (u *upstream) content(req *http.Request) (int, string) {
	parts := strings.Split(strings.Trim(req.URL.Path, "/"), "/")
	js := func(v any) (int, string) {
		b, _ := json.Marshal(v)
		return 200, string(b)
	}
	type m = map[string]any
	// state lists all files of a repository at a ref: every target in it, each at its current version.
	state := func(owner, repo, ref string) map[string]string {
		var all map[string]string
		for i, t := range u.targets {
			if t.Owner != owner || t.Repo != repo || t.apiRef() != ref {
				continue
			}
			if all == nil {
				all = map[string]string{"README.md": "# templates\n", "LICENSE": "free", "docs/a.md": "x", "docs/b.go.tmpl": "{{define \"main\"}}wrong directory{{end}}"}
			}
			for n, c := range t.files(u.cur[i]) {
				all[path.Join(t.Path, n)] = c
			}
		}
		return all
	}
	if req.URL.Host == "api.github.com" && len(parts) >= 3 && parts[0] == "repos" {
		owner, repo := parts[1], parts[2]
		known := false
		for _, t := range u.targets {
			known = known || (t.Owner == owner && t.Repo == repo)
		}
		if !known {
			return 404, `{"message":"Not Found"}`
		}
		switch {
		case len(parts) == 3:
			return js(m{"name": repo, "full_name": owner + "/" + repo, "default_branch": "trunk"})
		case parts[3] == "contents":
			ref := req.URL.Query().Get("ref")
			if ref == "" {
				ref = "trunk"
			}
			files := state(owner, repo, ref)
			dir := strings.Join(parts[4:], "/")
			var list []m
			seen := map[string]bool{}
			var names []string
			for n := range files {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				rest := n
				if dir != "" {
					if !strings.HasPrefix(n, dir+"/") {
						continue
					}
					rest = n[len(dir)+1:]
				}
				if i := strings.IndexByte(rest, '/'); i >= 0 {
					d := rest[:i]
					if !seen[d] {
						seen[d] = true
						list = append(list, m{"type": "dir", "name": d, "path": path.Join(dir, d), "size": 0, "sha": sha(d), "download_url": nil})
					}
					continue
				}
				list = append(list, m{"type": "file", "name": rest, "path": n, "size": len(files[n]), "sha": sha(files[n]),
					"download_url": "https://raw.githubusercontent.com/" + owner + "/" + repo + "/" + ref + "/" + n})
			}
			if files == nil || list == nil {
				return 404, `{"message":"Not Found"}`
			}
			return js(list)
		case parts[3] == "git" && len(parts) > 5 && parts[4] == "trees":
			ref := strings.TrimPrefix(strings.TrimPrefix(strings.Join(parts[5:], "/"), "heads/"), "tags/")
			files := state(owner, repo, ref)
			if files == nil {
				return 404, `{"message":"Not Found"}`
			}
			var names []string
			for n := range files {
				names = append(names, n)
			}
			sort.Strings(names)
			var list []m
			for _, n := range names {
				list = append(list, m{"path": n, "mode": "100644", "type": "blob", "size": len(files[n]), "sha": sha(files[n])})
				u.blobs[sha(files[n])] = files[n]
			}
			return js(m{"sha": sha(ref), "tree": list, "truncated": false})
		case parts[3] == "git" && len(parts) == 6 && parts[4] == "blobs":
			c, ok := u.blobs[parts[5]]
			if !ok {
				return 404, `{"message":"Not Found"}`
			}
			return js(m{"sha": parts[5], "size": len(c), "encoding": "base64", "content": base64.StdEncoding.EncodeToString([]byte(c))})
		}
	}
	if req.URL.Host == "raw.githubusercontent.com" && len(parts) >= 4 {
		for i := 3; i < len(parts); i++ { // a ref may contain slashes
			if c, ok := state(parts[0], parts[1], strings.Join(parts[2:i], "/"))[strings.Join(parts[i:], "/")]; ok {
				return 200, c
			}
		}
	}
	return 404, `{"message":"Not Found"}`
}

// ---- plan ----

type cgen struct {
	T       int
	Slot    int
	Refresh bool
	Delay   time.Duration
	Disk    []Fault
	Net     []ufault
	Kill    time.Duration // ends the process from outside after this time; 0 never
	Twice   int           // further generations of the same target by goroutines of the same process
	Keep    bool          // the process lives on and serves the next generation in its slot
}

type cstep struct {
	Kind string // gen, embedded, release, advance, jump
	T    int
	D    time.Duration
	Gens []cgen
}

type cacheBody struct {
	S       Sched
	Targets []*utarget
	Steps   []cstep
	Lat     time.Duration
	Chunk   int
}

// resident is a process that generates more than once, like a server does.
type resident struct {
	proc *Proc
	jobs chan func()
	used int
}

type cgenRun struct {
	plan      cgen
	name      string
	step      int
	proc      *Proc
	done      chan struct{}
	requests  int
	stuck     *ufault
	netFault  bool
	diskFault bool
	renames   int // that a fault hit
	crashed   bool
	startWall time.Time
	endWall   time.Time
	startTrue time.Duration
	endTrue   time.Duration
	outs      []genOut
	current   int // upstream version while it ran
	jumps     int // clock movements before it
}

type genOut struct {
	Done              bool
	Code, Err         string
	Version, Dir      string
	Local             bool
	Age               time.Duration
	RefreshErr        string
	version           int  // -1: no known version
	ParsedForeignText bool `json:"-"`
}

const cacheSchema = `{"webrpc":"v1","name":"Cache","version":"v0.1.0","basepath":"/rpc","types":[{"kind":"struct","name":"User","fields":[{"name":"id","type":"uint64","optional":false,"meta":[]}]}],"errors":[],"services":[{"name":"Users","methods":[{"name":"Get","annotations":{},"inputs":[],"outputs":[{"name":"user","type":"User","optional":false}]}]}]}`

// genSlot generates with the code of one slot.
func genSlot(slot int, target string, refresh bool) (o genOut) {
	fill := func(code, version, dir string, local bool, age time.Duration, rerr, err error) {
		o = genOut{Done: true, Code: code, Version: version, Dir: dir, Local: local, Age: age}
		if rerr != nil {
			o.RefreshErr = rerr.Error()
		}
		if err != nil {
			o.Err = err.Error()
			if o.Err == "" {
				o.Err = "?"
			}
		}
	}
	bad := func(err error) {
		if err != nil {
			panic("the schema of the scenario is refused: " + err.Error())
		}
	}
	switch slot {
	case 1:
		s, err := schema1.ParseSchemaJSON([]byte(cacheSchema))
		bad(err)
		out, err := gen1.Generate(s, target, &gen1.Config{RefreshCache: refresh})
		if out == nil {
			out = &gen1.GenOutput{}
		}
		fill(out.Code, out.TmplVersion, out.TmplDir, out.IsLocal, out.CacheAge, out.CacheRefreshErr, err)
	case 2:
		s, err := schema2.ParseSchemaJSON([]byte(cacheSchema))
		bad(err)
		out, err := gen2.Generate(s, target, &gen2.Config{RefreshCache: refresh})
		if out == nil {
			out = &gen2.GenOutput{}
		}
		fill(out.Code, out.TmplVersion, out.TmplDir, out.IsLocal, out.CacheAge, out.CacheRefreshErr, err)
	default:
		s, err := schema0.ParseSchemaJSON([]byte(cacheSchema))
		bad(err)
		out, err := gen0.Generate(s, target, &gen0.Config{RefreshCache: refresh})
		if out == nil {
			out = &gen0.GenOutput{}
		}
		fill(out.Code, out.TmplVersion, out.TmplDir, out.IsLocal, out.CacheAge, out.CacheRefreshErr, err)
	}
	return o
}

func genVer(r *rand.Rand, prev *uver) uver {
	var v uver
	for _, n := range partNames {
		if r.IntN(5) < 2 {
			continue
		}
		v.Files = append(v.Files, ufile{Name: n, Parts: 1 + r.IntN(partsPerFile), Pad: r.IntN(3) * r.IntN(40)})
		if r.IntN(30) == 0 { // of the size real templates have, and larger
			v.Files[len(v.Files)-1].Pad = r.IntN(300 << r.IntN(7))
		}
	}
	if prev != nil && r.IntN(3) == 0 { // as before, but for one file
		v.Files = append([]ufile(nil), prev.Files...)
		if len(v.Files) > 0 {
			i := r.IntN(len(v.Files))
			if r.IntN(2) == 0 {
				v.Files = append(v.Files[:i:i], v.Files[i+1:]...)
			} else {
				v.Files[i].Parts = 1 + r.IntN(partsPerFile)
			}
		}
	}
	return v
}

var netKinds = []string{"refused", "reset", "timeout", "500", "502", "404", "429", "401", "ratelimit", "cut", "cut", "cut", "204", "206", "300", "304", "307", "308", "stall", "stallbody", "slow", "redirect", "redirloop", "html", "empty"}

func genCache(r *rand.Rand, tier string, focus string) any {
	b := &cacheBody{S: genBusySched(r)}
	b.S.Brief = true
	if focus == "C11" {
		b.S.Pause = 0 // its times are judged to the second
	}
	if r.IntN(3) == 0 {
		b.Chunk = 1 + r.IntN(200)
	}
	b.Lat = pick(r, []time.Duration{0, time.Millisecond, 2 * time.Second, 40 * time.Second})
	forms := []utarget{
		{Owner: "acme", Repo: "gen-x"},
		{Owner: "acme", Repo: "gen-x", Ref: "v1.2.0"},
		{Owner: "acme", Repo: "gen-x", Ref: "heads/next"},
		{Owner: "acme", Repo: "gen-x", Path: "tmpl/go"},
		{Owner: "acme", Repo: "gen-x", Path: "tmpl/go", Ref: "v1.2.0"},
		{Owner: "other", Repo: "gen-x"},
		{Owner: "webrpc", Repo: "gen-x", Short: true},
		{Owner: "acme", Repo: "mono", Path: "go", Ref: "heads/main"},
	}
	if r.IntN(3) == 0 { // what is embedded in the tool, at versions that are not
		forms = append(forms, []utarget{
			{Owner: "webrpc", Repo: "gen-x", Ref: "v1.2.0", Short: true},
			{Owner: "webrpc", Repo: "gen-golang", Ref: "v0.0.9"},
			{Owner: "webrpc", Repo: "gen-typescript", Ref: "v0.0.9", Short: true},
			{Owner: "webrpc", Repo: "gen-javascript", Ref: "v9.9.9", Short: true},
			{Owner: "webrpc", Repo: "gen-kotlin", Ref: "heads/main"},
			{Owner: "webrpc", Repo: pick(r, []string{"gen-golang", "gen-typescript", "gen-javascript"}), Ref: "v0.6.0", Short: r.IntN(2) == 0},
			{Owner: "webrpc", Repo: "gen-javascript", Path: "tmpl"},
			{Owner: "acme", Repo: "gen-javascript"},
		}...)
	}
	nt := 1 + r.IntN(2)
	if r.IntN(6) == 0 {
		nt = 3
	}
	order := r.Perm(len(forms))
	if r.IntN(8) == 0 { // two targets whose 32 bit hashes are the same
		forms = append(forms, utarget{Owner: "hhrkqwe", Repo: "gen-x"}, utarget{Owner: "mxdqyle", Repo: "gen-x"})
		order = append([]int{len(forms) - 1, len(forms) - 2}, order...)
		nt++
	}
	for _, i := range order[:nt] {
		t := forms[i]
		n := 2 + r.IntN(4)
		var prev *uver
		for k := 0; k < n; k++ {
			t.Vers = append(t.Vers, genVer(r, prev))
			prev = &t.Vers[k]
		}
		b.Targets = append(b.Targets, &t)
	}
	pKeep := pick(r, []int{0, 0, 2})
	steps := 3 + r.IntN(7)
	if tier == "thorough" {
		steps = 3 + r.IntN(16)
	}
	pDisk, pNet, pConc, pCrash := 4, 4, 4, 4
	if focus == "C11" {
		pDisk, pNet, pConc, pCrash = 6, 2, 8, 8
	}
	mk := func(slot int) cgen {
		g := cgen{T: r.IntN(nt), Slot: slot, Refresh: r.IntN(4) == 0}
		if r.IntN(2) == 0 {
			g.T = 0
		}
		if r.IntN(pDisk) == 0 {
			for i := 0; i <= r.IntN(2); i++ {
				f := Fault{Class: pick(r, []string{"mut", "mut", "write", "create", "mkdir", "rename", "unlink", "open", "read", "stat", "readdir", "any", "close", "sync"}),
					Nth: 1 + r.IntN(12), Kind: pick(r, []string{"ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE", "ENOENT", "short", "EINTR", "EDQUOT"}), Arg: int64(r.IntN(300)), Sticky: r.IntN(3) == 0}
				if f.Kind == "short" {
					f.Class = pick(r, []string{"write", "read"})
					f.Arg++
				}
				if f.Kind == "ENOENT" { // nothing reports an existing file as missing
					f.Kind = "EIO"
				}
				g.Disk = append(g.Disk, f)
			}
		}
		if r.IntN(pCrash) == 0 {
			f := Fault{Class: pick(r, []string{"mut", "mut", "any", "write", "rename", "create", "unlink"}), Nth: 1 + r.IntN(20), Kind: pick(r, []string{"crash", "crashafter", "torn"}), Arg: int64(r.IntN(200))}
			if f.Kind == "torn" {
				f.Class = "write"
			}
			g.Disk = append(g.Disk, f)
		}
		if r.IntN(pNet) == 0 {
			for i := 0; i <= r.IntN(2); i++ {
				f := ufault{Nth: 1 + r.IntN(8), Kind: pick(r, netKinds), Arg: int64(r.IntN(4000)), Rest: r.IntN(3) == 0}
				if f.Kind == "slow" {
					f.Arg = int64(r.IntN(1800)) * int64(time.Second)
				}
				g.Net = append(g.Net, f)
			}
		}
		if r.IntN(20) == 0 {
			g.Kill = time.Duration(1 + r.Int64N(int64(b.Lat)*4+1))
		}
		return g
	}
	for i := 0; i < steps; i++ {
		if focus == "C11" && r.IntN(10) == 0 { // a refresh that fails to write, then one that fails to fetch
			t := r.IntN(nt)
			g := mk(r.IntN(3))
			g.T, g.Refresh, g.Net, g.Kill = t, true, nil, 0
			for len(g.Disk) == 0 {
				g.Disk = mk(0).Disk
			}
			last := cgen{T: t, Slot: r.IntN(3), Refresh: r.IntN(2) == 0, Net: []ufault{{Nth: 1, Kind: pick(r, []string{"refused", "500", "timeout", "stall"}), Rest: true}}}
			b.Steps = append(b.Steps, cstep{Kind: "gen", Gens: []cgen{{T: t, Slot: r.IntN(3), Refresh: true}}}, cstep{Kind: "release", T: t}, cstep{Kind: "gen", Gens: []cgen{g}},
				cstep{Kind: "advance", D: 2 * time.Hour}, cstep{Kind: "gen", Gens: []cgen{last}})
		}
		if focus == "C10" && r.IntN(8) == 0 { // a slow reader, while others replace the copy once or twice
			t := r.IntN(nt)
			slots := r.Perm(3)
			read := cgen{T: t, Slot: slots[0]}
			for k := 0; k < 2; k++ {
				read.Disk = append(read.Disk, Fault{Class: pick(r, []string{"any", "stat", "read", "open"}), Path: "webrpc-cache", Nth: 1 + r.IntN(14), Kind: "stall", Arg: r.Int64N(int64(b.Lat)*12 + 1)})
			}
			st := cstep{Kind: "gen", Gens: []cgen{read}}
			for k := 1; k < 3; k++ {
				st.Gens = append(st.Gens, cgen{T: t, Slot: slots[k], Refresh: true, Delay: time.Duration(r.Int64N(int64(b.Lat)*6 + 1))})
			}
			b.Steps = append(b.Steps, cstep{Kind: "gen", Gens: []cgen{{T: t, Slot: r.IntN(3), Refresh: true}}}, cstep{Kind: "release", T: t}, st)
		}
		s := cstep{}
		switch k := r.IntN(10); {
		case k < 6 || i == 0:
			s.Kind = "gen"
			n := 1
			if r.IntN(pConc) == 0 {
				n = 2 + r.IntN(2)
			}
			for j, slot := range r.Perm(3)[:n] {
				g := mk(slot)
				if j > 0 {
					if r.IntN(3) > 0 {
						g.T = s.Gens[0].T
					}
					g.Delay = time.Duration(r.Int64N(int64(b.Lat)*6 + 1))
				}
				if r.IntN(12) == 0 {
					g.Twice = 1 + r.IntN(2)
				}
				g.Keep = pKeep > 0 && r.IntN(pKeep) == 0
				s.Gens = append(s.Gens, g)
			}
		case k < 8:
			s.Kind = "release"
			s.T = r.IntN(nt)
		case k == 8:
			s.Kind = "advance"
			s.D = pick(r, []time.Duration{time.Second, time.Minute, 30 * time.Minute, 59 * time.Minute, time.Hour - 30*time.Second, time.Hour + time.Second, 61 * time.Minute, 2 * time.Hour, 30 * time.Hour, 1000 * time.Hour})
		default:
			s.Kind = "jump"
			s.D = time.Duration(r.Int64N(int64(400*time.Hour))) - 200*time.Hour
			switch r.IntN(4) {
			case 0:
				s.D = time.Duration(r.Int64N(int64(4*time.Hour))) - 2*time.Hour
			case 1:
				s.D = -s.D * 50
			}
			if r.IntN(25) == 0 { // times that no longer fit in 32 bits
				s.D = 45 * 365 * 24 * time.Hour
			}
			if focus == "C10" && r.IntN(3) > 0 {
				s.Kind, s.D = "advance", 61*time.Minute
			}
		}
		if focus == "C11" && r.IntN(12) == 0 {
			s = cstep{Kind: "embedded", T: r.IntN(18), Gens: []cgen{{Slot: r.IntN(3), Refresh: r.IntN(2) == 0}}}
		}
		b.Steps = append(b.Steps, s)
	}
	return b
}

func (b *cacheBody) clamp() {
	if len(b.Targets) == 0 {
		b.Targets = []*utarget{{Owner: "acme", Repo: "gen-x"}}
	}
	for i, t := range b.Targets {
		if t == nil || t.Owner == "" || t.Repo == "" {
			b.Targets[i] = &utarget{Owner: "acme", Repo: fmt.Sprintf("gen-y%d", i)}
			t = b.Targets[i]
		}
		if t.Short && (t.Owner != "webrpc" || t.Path != "" || strings.Contains(t.Ref, "/")) {
			t.Short = false
		}
		if len(t.Vers) == 0 {
			t.Vers = []uver{{}}
		}
		for v := range t.Vers {
			var keep []ufile
			seen := map[string]bool{}
			for _, f := range t.Vers[v].Files {
				ok := false
				for _, n := range partNames {
					ok = ok || n == f.Name
				}
				if !ok || seen[f.Name] {
					continue
				}
				seen[f.Name] = true
				f.Pad = max(0, min(f.Pad, 20000))
				f.Parts = max(1, min(f.Parts, partsPerFile))
				keep = append(keep, f)
			}
			t.Vers[v].Files = keep
		}
	}
	n := len(b.Targets)
	for i := range b.Steps {
		s := &b.Steps[i]
		if s.Kind == "embedded" {
			s.T = max(0, s.T)
			if len(s.Gens) != 1 || s.Gens[0].Slot < 0 || s.Gens[0].Slot > 2 {
				s.Gens = []cgen{{}}
			}
			s.Gens[0].T = 0
			continue
		}
		s.T = max(0, min(s.T, n-1))
		used := map[int]bool{}
		var gs []cgen
		for _, g := range s.Gens {
			g.T = max(0, min(g.T, n-1))
			g.Slot = max(0, min(g.Slot, 2))
			for used[g.Slot] {
				g.Slot = (g.Slot + 1) % 3
				if len(used) == 3 {
					break
				}
			}
			if used[g.Slot] {
				continue
			}
			used[g.Slot] = true
			gs = append(gs, g)
		}
		s.Gens = gs
	}
}

func execCache(bb any, res *Result, prop string) {
	b := bb.(*cacheBody)
	b.clamp()
	var names []string
	for _, t := range b.Targets {
		names = append(names, fmt.Sprintf("%s (%d versions)", t.spelled(), len(t.Vers)))
	}
	var kinds []string
	for _, s := range b.Steps {
		k := s.Kind
		for _, g := range s.Gens {
			k += fmt.Sprintf(" %d", g.T)
			if g.Refresh {
				k += "!"
			}
			for _, f := range g.Disk {
				k += " " + f.Class + "#" + fmt.Sprint(f.Nth) + ":" + f.Kind
			}
			for _, f := range g.Net {
				k += " net#" + fmt.Sprint(f.Nth) + ":" + f.Kind
			}
		}
		if s.D != 0 {
			k += " " + s.D.String()
		}
		kinds = append(kinds, k)
	}
	res.Note = fmt.Sprintf("targets %v; steps %s", names, strings.Join(kinds, "; "))

	w := &World{S: b.S, ReadChunk: b.Chunk, Budget: 300_000_000}
	var sum strings.Builder
	out := RunWorld(w, func(w *World) {
		nw := w.UseNet()
		u := &upstream{w: w, targets: b.Targets, cur: make([]int, len(b.Targets)), rng: newRand(b.S.Rand ^ 77), lat: b.Lat, gens: map[string]*cgenRun{}, blobs: map[string]string{}}
		nw.HTTP = u.serve
		trueStart := time.Now()
		var offset time.Duration
		trueNow := func() time.Duration { return time.Since(trueStart) } // monotonic
		jumps := 0
		m := &cacheModel{b: b, res: res, prop: prop, copies: make([]*cgenRun, len(b.Targets)), either: make([][]int, len(b.Targets))}
		residents := map[int]*resident{}
		run := func(step int, plans []cgen) {
			var runs []*cgenRun
			w.paused = 0
			dstrt.SetPause(b.S.Pause, b.S.Seed+uint64(step))
			for i, pl := range plans {
				r := &cgenRun{plan: pl, step: step, name: fmt.Sprintf("g%d.%d", step, i), current: u.cur[pl.T], jumps: jumps, done: make(chan struct{})}
				r.outs = make([]genOut, 1+max(0, min(pl.Twice, 3)))
				home := residents[pl.Slot]
				if home != nil && home.proc.Ended {
					home = nil
				}
				procName := r.name
				if home != nil {
					procName = home.proc.Name
					home.used++
					w.Stats["event.same_process_again"]++
				}
				var mine []*Fault
				for _, f := range pl.Disk {
					f.Proc = procName
					g := f
					mine = append(mine, &g)
					w.Faults = append(w.Faults, &g)
				}
				runs = append(runs, r)
				t := b.Targets[pl.T]
				if pl.Delay > 0 {
					time.Sleep(pl.Delay)
				}
				u.gens[procName] = r
				r.startWall, r.startTrue = time.Now().Round(0), trueNow()
				work := func() {
					if len(r.outs) == 1 {
						r.outs[0] = genSlot(pl.Slot, t.spelled(), pl.Refresh)
						r.endWall = time.Now().Round(0)
						close(r.done)
						return
					}
					var wg sync.WaitGroup
					for k := range r.outs {
						wg.Add(1)
						go func() {
							defer wg.Done()
							r.outs[k] = genSlot(pl.Slot, t.spelled(), pl.Refresh)
						}()
					}
					wg.Wait()
					r.endWall = time.Now().Round(0)
					close(r.done)
				}
				if home == nil && !pl.Keep {
					r.proc = w.Spawn(procName, pl.Slot, work)
				} else {
					if home == nil {
						jobs := make(chan func(), 1)
						home = &resident{jobs: jobs}
						residents[pl.Slot] = home
						home.proc = w.Spawn(procName, pl.Slot, func() {
							for job := range jobs {
								job()
							}
						})
					}
					r.proc = home.proc
					home.jobs <- work
					if !pl.Keep {
						close(home.jobs)
						delete(residents, pl.Slot)
					}
				}
				if pl.Kill > 0 {
					p := r.proc
					time.AfterFunc(pl.Kill, func() { w.Kill(p) })
				}
				defer func() {
					for _, f := range mine {
						if f.Fired() && f.Kind != "stall" {
							r.diskFault = true
						}
					}
				}()
			}
			for _, r := range runs {
				limit := time.NewTimer(200 * time.Hour)
				select {
				case <-r.done:
				case <-r.proc.Done:
				case <-limit.C:
					res.Fail("hang", "the generation %s has not ended after 200 hours", r.name)
					return
				}
				limit.Stop()
				if _, lives := residents[r.plan.Slot]; !lives && !w.WaitAll(200*time.Hour, r.proc) {
					res.Fail("hang", "the process of generation %s has not ended after 200 hours", r.name)
					return
				}
				if r.proc.Panic != "" {
					res.Fail("panic", "the generation %s: %s", r.name, r.proc.Panic)
				}
				r.crashed = r.proc.Crashed
				if r.proc.Ended {
					r.endWall = r.proc.EndTime.Round(0)
				}
				r.endTrue = trueNow()
				for _, f := range w.Faults {
					if f.Proc == r.proc.Name && f.Fired() {
						r.diskFault = true
						r.renames += f.renames
					}
				}
			}
			w.Faults = nil
			m.judge(runs)
		}
		for i, s := range b.Steps {
			if res.Violation != "" {
				break
			}
			switch s.Kind {
			case "gen":
				run(i, s.Gens)
			case "embedded":
				if g := s.Gens[0]; residents[g.Slot] == nil {
					m.embedded(w, u, i, s.T, g)
				}
			case "release":
				if u.cur[s.T]+1 < len(b.Targets[s.T].Vers) {
					u.cur[s.T]++
					w.Stats["event.release"]++
					w.logf("release %s v%d", b.Targets[s.T].full(), u.cur[s.T])
				}
			case "advance":
				if s.D > 0 {
					time.Sleep(s.D)
				}
			case "jump":
				offset += s.D
				if lim := 60 * 365 * 24 * time.Hour; offset > lim || offset < -lim/4 {
					offset -= s.D
					break
				}
				jumps++
				w.JumpClock(offset)
				w.Stats["clock.jump"]++
			}
		}
		// Faults have stopped: an hour later every target gives its current version.
		if res.Violation == "" {
			time.Sleep(61 * time.Minute)
			for t := range b.Targets {
				if u.cur[t]+1 < len(b.Targets[t].Vers) && len(b.Steps)%2 == 0 {
					u.cur[t]++
				}
				run(1000+2*t, []cgen{{T: t, Slot: t % 3}})
				if res.Violation != "" {
					break
				}
				run(1001+2*t, []cgen{{T: t, Slot: (t + 1) % 3}})
			}
		}
		for _, g := range m.all {
			for _, o := range g.outs {
				fmt.Fprint(&sum, g.plan.T, g.requests > 0, g.netFault, g.diskFault, g.crashed, o.version, o.Err == "", o.RefreshErr == "", " ")
			}
			if g.crashed {
				res.Count("generations_crashed", 1)
			} else if g.outs[0].Err != "" {
				res.Count("generations_failed", 1)
			} else if g.requests == 0 {
				res.Count("generations_from_cache", 1)
			} else if g.outs[0].RefreshErr != "" {
				res.Count("generations_with_refresh_error", 1)
			} else {
				res.Count("generations_fetched", 1)
			}
		}
	})
	res.add(w, out)
	res.NoteState(sum.String())
}

var embeddedLine = regexp.MustCompile(`(?m)^\s*github\.com/webrpc/(gen-(\w+)) (v\S+)`)

// embedded generates from templates that are part of the tool, those in go.mod, which needs nobody.
func (m *cacheModel) embedded(w *World, u *upstream, step, n int, plan cgen) {
	all := embeddedLine.FindAllStringSubmatch(webrpc0.GoModFile, -1)
	if len(all) == 0 {
		w.Harness = "go.mod names no templates"
		return
	}
	e := all[n%len(all)]
	full := "github.com/webrpc/" + e[1] + "@" + e[3]
	target := []string{e[2], e[2] + "@" + e[3], "github.com/webrpc/" + e[1], full}[n/len(all)%4]
	r := &cgenRun{plan: plan, name: fmt.Sprintf("e%d", step)}
	r.plan.Net = []ufault{{Nth: 1, Kind: "refused", Rest: true}}
	u.gens[r.name] = r
	var o genOut
	p := w.Spawn(r.name, plan.Slot, func() { o = genSlot(plan.Slot, target, plan.Refresh) })
	if !w.WaitAll(time.Hour, p) {
		m.res.Fail("hang", "the generation of %s has not ended after an hour", target)
		return
	}
	m.res.Count("generations_embedded", 1)
	switch {
	case p.Panic != "":
		m.res.Fail("panic", "the generation of %s: %s", target, p.Panic)
	case r.requests > 0:
		m.fail("C11", "embedded-fetched", "the templates of %s are part of the tool (%s), yet it contacted upstream", target, full)
	case o.Err == "" && (o.Version != full || !o.Local):
		m.fail("C11", "wrong-template-version", "the templates of %s are part of the tool (%s), it says %q (local: %v)", target, full, o.Version, o.Local)
	case o.Err == "" && o.Code == "":
		m.fail("C11", "no-output", "nothing was generated for %s", target)
	case o.Err != "":
		m.res.Count("generations_embedded_failed", 1)
	}
}

// cacheModel judges the generations against the history.
type cacheModel struct {
	b      *cacheBody
	res    *Result
	prop   string
	all    []*cgenRun
	copies []*cgenRun // per target the clean generation that certainly left a complete copy
	either [][]int    // per target versions; a copy of one of them is left after faults
}

func (m *cacheModel) fail(prop, class, format string, args ...any) {
	if prop == m.prop {
		m.res.Fail(class, format, args...)
	}
}

func (m *cacheModel) judge(runs []*cgenRun) {
	var fresh []*cgenRun
	for _, g := range runs {
		t := m.b.Targets[g.plan.T]
		for k := range g.outs {
			o := &g.outs[k]
			o.version = -1
			if !o.Done || o.Err != "" {
				continue
			}
			for v := range t.Vers {
				if o.Code == t.expected(v) && v <= g.current {
					o.version = v
				}
			}
			if o.version < 0 {
				m.fail("C10", "mixed-set", "generation %s of %s succeeded with a set of templates that was never published: %s", g.name, t.full(), diffText(t.expected(g.current), o.Code))
				return
			}
		}
	}
	m.all = append(m.all, runs...)
	for _, g := range runs {
		t := m.b.Targets[g.plan.T]
		for k := range g.outs {
			o := &g.outs[k]
			if !o.Done {
				if !g.crashed {
					m.res.Fail("no-answer", "generation %s ended without answer (status %d): %s", g.name, g.proc.Exit, trimText(string(g.proc.Stderr), 300))
				}
				continue
			}
			switch {
			case g.requests == 0 && o.Err == "":
				if g.plan.Refresh {
					m.fail("C11", "refresh-ignored", "generation %s of %s was asked to refresh, but did not contact upstream", g.name, t.full())
				}
				ok := false
				why := ""
				for _, h := range m.all {
					if h == g || h.plan.T != g.plan.T || h.requests == 0 || (h.netFault && len(h.outs) == 1) || h.current != o.version {
						continue
					}
					wallMin, wallMax := g.startWall.Sub(h.endWall), g.endWall.Sub(h.startWall)
					trueMin := g.startTrue - h.endTrue
					why = fmt.Sprintf("; the version was fetched by %s, %v before by the clock, in truth %v", h.name, g.startWall.Sub(h.endWall), trueMin)
					if (wallMin <= time.Hour+2*time.Second && wallMax >= -2*time.Second) || trueMin <= time.Hour+2*time.Second {
						ok = true
						break
					}
				}
				if !ok {
					m.fail("C11", "stale-cache", "generation %s of %s used cached version %d (now %d) without contacting upstream, but it was not fetched within the hour%s", g.name, t.full(), o.version, g.current, why)
				}
				if o.RefreshErr != "" {
					m.fail("C11", "false-refresh-error", "generation %s did not try to refresh, yet reports %q", g.name, o.RefreshErr)
				}
			case g.requests == 0:
				if !g.diskFault {
					m.fail("C11", "no-fetch", "generation %s of %s failed without trying to fetch: %s", g.name, t.full(), o.Err)
				}
			case !g.netFault:
				if o.Err != "" {
					m.fail("C11", "fetched-but-failed", "upstream answered everything generation %s of %s asked (disk fault: %v), yet it failed: %s", g.name, t.full(), g.diskFault, o.Err)
				} else if o.version != g.current && len(g.outs) == 1 {
					m.fail("C11", "old-version", "generation %s of %s asked upstream, which has version %d, but used version %d (%s)", g.name, t.full(), g.current, o.version, o.RefreshErr)
				} else if o.RefreshErr != "" && !g.diskFault && len(runs) == 1 {
					m.fail("C11", "false-refresh-error", "generation %s had no fault, yet reports %q", g.name, o.RefreshErr)
				}
			default: // fetching failed
				c := m.copies[g.plan.T]
				// While another process replaces the copy, there is a moment without one.
				replacing := len(g.outs) > 1
				for _, h := range runs {
					replacing = replacing || (h != g && m.b.Targets[h.plan.T].sameDir(t) && h.requests > 0)
				}
				if c != nil && !g.diskFault && !replacing {
					if o.Err != "" {
						m.fail("C11", "no-fallback", "fetching failed and a complete copy of %s exists (generation %s), yet generation %s failed: %s", t.full(), c.name, g.name, o.Err)
						break
					}
				}
				if vs := m.either[g.plan.T]; c == nil && vs != nil && !g.diskFault && !replacing && !g.crashed && len(runs) == 1 {
					m.res.Count("fallbacks_after_disk_fault", 1)
					if o.Err != "" {
						m.fail("C11", "copy-lost", "generation %s of %s had a copy (version %v) before a disk fault or crash hit the writing of the new one; now fetching failed and nothing is left: %s", g.name, t.full(), vs, o.Err)
					} else if o.version != g.current && !slices.Contains(vs, o.version) {
						m.fail("C11", "wrong-fallback", "generation %s of %s used version %d, left were only %v", g.name, t.full(), o.version, vs)
					}
				}
				if o.Err == "" && c != nil && len(runs) == 1 && len(g.outs) == 1 && !g.diskFault {
					if o.version != c.current && o.version != g.current {
						m.fail("C11", "wrong-fallback", "generation %s of %s should use the copy of generation %s (version %d), it used version %d", g.name, t.full(), c.name, c.current, o.version)
					}
					if o.version == c.current && o.version != g.current {
						if o.RefreshErr == "" {
							m.fail("C11", "silent-fallback", "generation %s of %s fell back to version %d without reporting the refresh failure", g.name, t.full(), o.version)
						}
						if g.jumps == c.jumps && (o.Age < g.startWall.Sub(c.endWall)-2*time.Second || o.Age > g.endWall.Sub(c.startWall)+2*time.Second) {
							m.fail("C11", "wrong-age", "generation %s of %s reports the age %v, the copy is %v old", g.name, t.full(), o.Age, g.startWall.Sub(c.endWall))
						}
					}
				}
			}
			if o.Err == "" {
				if o.Version != t.full() && !g.diskFault {
					m.fail("C11", "wrong-template-version", "generation %s reports template version %q instead of %q", g.name, o.Version, t.full())
				}
				if o.Local {
					m.fail("C11", "wrong-template-version", "generation %s of a remote target says it is local", g.name)
				}
			}
			// A cache that works is used.
			if c := m.copies[g.plan.T]; c != nil && len(runs) == 1 && len(g.outs) == 1 && !g.plan.Refresh && !g.diskFault && !g.crashed && g.jumps == c.jumps && g.startWall.Sub(c.startWall) < time.Hour-2*time.Second {
				if g.requests > 0 {
					m.fail("C11", "cache-unused", "generation %s of %s asked upstream although generation %s had fetched %v before", g.name, t.full(), c.name, g.startWall.Sub(c.endWall))
				} else if o.Err == "" && o.version != c.current {
					m.fail("C11", "wrong-cached-version", "generation %s of %s used version %d, cached is %d", g.name, t.full(), o.version, c.current)
				} else if o.Err == "" && (o.Age < g.startWall.Sub(c.endWall)-2*time.Second || o.Age > g.endWall.Sub(c.startWall)+2*time.Second) {
					m.fail("C11", "wrong-age", "generation %s of %s reports the age %v, the copy is %v old", g.name, t.full(), o.Age, g.startWall.Sub(c.endWall))
				}
			}
		}
	}
	for _, g := range runs {
		// Writing a new copy either succeeds or leaves the old one: one failure is survived everywhere,
		// and any number of them before the new copy takes the place of the old.
		vs := m.either[g.plan.T]
		if c := m.copies[g.plan.T]; c != nil {
			vs = []int{c.current}
		}
		faulty := g.diskFault || g.crashed
		if len(runs) > 1 || len(g.outs) > 1 || g.plan.Kill > 0 && g.crashed || g.renames > 1 || g.crashed && g.renames > 0 {
			vs = nil
		}
		if vs != nil && faulty && !slices.Contains(vs, g.current) {
			vs = append(slices.Clone(vs), g.current)
		}
		for i, t := range m.b.Targets {
			if i != g.plan.T && t.sameDir(m.b.Targets[g.plan.T]) {
				m.either[i] = nil
				vs = nil
			}
		}
		m.either[g.plan.T] = vs
	}
	for _, g := range runs {
		switch {
		case g.diskFault || g.crashed || (g.netFault && len(g.outs) > 1 && g.requests > 0):
			m.copies[g.plan.T] = nil
		case g.requests > 0 && !g.netFault && g.outs[0].Err == "":
			fresh = append(fresh, g)
		}
	}
	for _, g := range runs { // what another target of the same hash left
		for i, t := range m.b.Targets {
			if i != g.plan.T && t.sameDir(m.b.Targets[g.plan.T]) && g.requests > 0 {
				m.copies[i] = nil
			}
		}
	}
	for _, g := range fresh {
		dirty := len(runs) > 1 || len(g.outs) > 1
		for _, h := range runs {
			if h.plan.T == g.plan.T && (h.diskFault || h.crashed) {
				dirty = true
			}
		}
		if !dirty {
			m.copies[g.plan.T] = g
		} else {
			m.copies[g.plan.T] = nil
		}
	}
}

func init() {
	for _, prop := range []string{"C10", "C11"} {
		register(&Scenario{Prop: prop, Gen: func(r *rand.Rand, tier string) any { return genCache(r, tier, prop) }, New: func() any { return &cacheBody{} },
			Exec: func(b any, res *Result) { execCache(b, res, prop) }, Shrink: autoShrink, Real: realGen + "; gitfs, go-github, httpfs", Stub: stubGen + "; GitHub (repository, contents, trees, blobs, raw downloads) below net/http.Client",
			Rule: "Histories of generations by one to three processes on one machine, releases, waits and clock jumps, with faults of requests, downloads and system calls and crashes; the oracle knows every published version and when it was fetched. A run is non-trivial when a fault fired, processes overlapped or an upstream version changed."})
	}
}
