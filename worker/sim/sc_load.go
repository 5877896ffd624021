package sim

import (
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"regexp"
	"sort"
	"strings"
	"time"

	webrpc "github.com/webrpc/webrpc/zz_dst/p0"
	"github.com/webrpc/webrpc/zz_dst/p0/schema"
	"github.com/webrpc/webrpc/zz_dst/p0/schema/ridl"

	dstrt "archive"
)

const (
	realLoad = "webrpc root package, schema, schema/ridl (lexer, parser, import resolution, validation) and import graph of the working tree; Go's os, io/fs, encoding/json"
	stubLoad = "Linux kernel: file system calls on an in-memory disk, processes, clock, scheduler decisions and helper commands (go list, git)"
)

// loaded is the observable outcome of one load.
type loaded struct {
	S     *schema.WebRPCSchema
	Err   string
	Canon string
	JSON  string
	Hash  string
}

func (l *loaded) key() string {
	if l.Err != "" {
		return "error: " + l.Err
	}
	return l.Canon + l.JSON + l.Hash
}

// plainFS is a file system of the caller's own, without the ReadFile method that os.DirFS has.
// Its files use the freedom that io.Reader and fs.FileInfo leave.
type plainFS struct {
	fs.FS
	mode int // bits: the end and errors come along with data; sizes are unknown; reads may bring nothing
}

type plainFile struct {
	fs.File
	mode int
	n    int
	err  error
}

func (p plainFS) Open(name string) (fs.File, error) {
	f, err := p.FS.Open(name)
	if err != nil || p.mode == 0 {
		return f, err
	}
	return &plainFile{File: f, mode: p.mode}, nil
}

type unknownSize struct{ fs.FileInfo }

func (unknownSize) Size() int64 { return 0 }

func (f *plainFile) Stat() (fs.FileInfo, error) {
	i, err := f.File.Stat()
	if err == nil && f.mode&2 != 0 {
		i = unknownSize{i}
	}
	return i, err
}

func (f *plainFile) Read(b []byte) (int, error) {
	if f.err != nil {
		return 0, f.err
	}
	f.n++
	if f.mode&4 != 0 && f.n%3 == 1 || len(b) == 0 {
		return 0, nil
	}
	n, err := f.File.Read(b)
	for f.mode&1 != 0 && err == nil && n < len(b) {
		var m int
		m, err = f.File.Read(b[n:])
		n += m
	}
	f.err = err
	return n, err
}

// viaFS makes load read an absolute path through the parser's file system seam.
func viaFS(p string, on bool) string {
	if on && strings.HasPrefix(p, "/") && strings.HasSuffix(p, ".ridl") {
		return "fs:" + p
	}
	return p
}

func load(p string) *loaded {
	var s *schema.WebRPCSchema
	var err error
	if q, ok := strings.CutPrefix(p, "fs:/"); ok {
		mode := 0
		for _, c := range []byte(q) {
			mode += int(c)
		}
		s, err = ridl.NewParser(plainFS{os.DirFS("/"), mode % 8}, "/", q).Parse()
	} else {
		s, err = webrpc.ParseSchemaFile(p)
	}
	l := &loaded{S: s}
	if err != nil {
		l.Err = err.Error()
		if l.Err == "" {
			l.Err = "(empty error text)"
		}
		return l
	}
	l.Canon = canonSchema(s, strings.HasSuffix(p, ".json"))
	return l
}

func (l *loaded) detail() {
	if l.Err == "" && l.S != nil {
		j, err := l.S.ToJSON()
		if err != nil {
			j = "json error " + err.Error()
		}
		l.JSON = j
		h, err := l.S.SchemaHash()
		if err != nil {
			h = "hash error " + err.Error()
		}
		l.Hash = h
	}
}

// diffText shows where two texts part.
func diffText(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<end>", "<end>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: want %q, got %q", i+1, x, y)
		}
	}
	return "identical"
}

func relTo(cwd, p string) string { return relPath(cwd, p) }

// endsWell checks the end of a process that only ran library code.
func endsWell(res *Result, w *World, p *Proc, limit time.Duration) bool {
	if !w.WaitAll(limit, p) {
		res.Fail("hang", "%s has not ended after %v of simulated time (every goroutine of it is blocked)", p.Name, limit)
		return false
	}
	if p.Panic != "" {
		cl := "panic"
		if strings.HasPrefix(p.Panic, "does not terminate") {
			cl = "endless"
		}
		res.Fail(cl, "%s: %s", p.Name, p.Panic)
		return false
	}
	if p.Crashed {
		return false
	}
	if p.Exit != 0 {
		res.Fail("exit", "%s ended the process with status %d: %s", p.Name, p.Exit, trimText(string(p.Stderr), 300))
		return false
	}
	return true
}

func trimText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// ---- disk fault generation ----

var hardErrors = []string{"EIO", "ENOENT", "EACCES", "EMFILE", "ESTALE", "ENOMEM"}

// genReadFaults draws faults that hit reading.
func genReadFaults(r *rand.Rand, paths []string, softOnly bool) []Fault {
	var out []Fault
	n := r.IntN(4)
	for i := 0; i < n; i++ {
		f := Fault{Nth: 1 + r.IntN(3)}
		if r.IntN(3) > 0 {
			f.Path = pick(r, paths)
		} else {
			f.Nth = 1 + r.IntN(20)
		}
		k := r.IntN(8)
		if softOnly {
			k = 4 + r.IntN(4)
		}
		switch {
		case k < 2:
			f.Class, f.Kind = "open", pick(r, hardErrors)
		case k < 3:
			f.Class, f.Kind = "read", pick(r, []string{"EIO", "ESTALE", "EISDIR"})
		case k < 4:
			f.Class, f.Kind = pick(r, []string{"stat", "close", "any"}), "EIO"
		case k < 5:
			f.Class, f.Kind = pick(r, []string{"open", "read"}), "EINTR"
			f.Sticky = false
		case k < 7:
			f.Class, f.Kind, f.Arg, f.Sticky = "read", "short", int64(1+r.IntN(40)), r.IntN(2) == 0
		default:
			f.Class, f.Kind, f.Arg = "any", "stall", int64(time.Duration(1+r.IntN(5000))*time.Millisecond)
		}
		if r.IntN(4) == 0 && f.Kind != "stall" && f.Kind != "EINTR" {
			f.Sticky = true
		}
		out = append(out, f)
	}
	return out
}

// genTornRead draws a file whose reading gives a first part, usually up to the start of a line, and then fails.
func genTornRead(r *rand.Rand, path, text string) []Fault {
	cut := 1 + r.IntN(len(text)+1)
	if r.IntN(4) > 0 {
		var starts []int
		for i := 1; i < len(text); i++ {
			if text[i-1] == '\n' && (text[i] == '\n' || r.IntN(4) == 0) {
				starts = append(starts, i)
			}
		}
		if len(starts) > 0 {
			cut = pick(r, starts)
		}
	}
	return []Fault{
		{Class: "read", Path: path, Nth: 1, Kind: "short", Arg: int64(cut)},
		{Class: "read", Path: path, Nth: 2, Kind: pick(r, []string{"EIO", "ESTALE", "ENOMEM"}), Sticky: r.IntN(2) == 0},
	}
}

func softFault(f *Fault) bool { return f.Kind == "EINTR" || f.Kind == "short" || f.Kind == "stall" }

func faultPtrs(fs []Fault) []*Fault {
	var out []*Fault
	for i := range fs {
		f := fs[i]
		out = append(out, &f)
	}
	return out
}

func (p *Project) paths() []string {
	var out []string
	for i := range p.Files {
		out = append(out, p.Files[i].Path)
	}
	return out
}

// ---- C01 ----

type c01Body struct {
	S      Sched
	Proj   *Project
	Faults []Fault `json:",omitempty"`
	Chunk  int     `json:",omitempty"`
	Rel    bool    `json:",omitempty"`
	JSON   bool    `json:",omitempty"`
	Edit   int     // file that gets a second version before the last load; -1 none
	Warm   bool    `json:",omitempty"` // a load before the faults
	FS     bool    `json:",omitempty"` // through a file system given by the caller
	Clash  *clash  `json:",omitempty"`
}

// clash adds a second definition of something the root file sees.
type clash struct {
	Pick uint64
	Code bool `json:",omitempty"` // errors: the same code instead of the same name
	Case bool `json:",omitempty"` // spelled in another case
}

// apply adds the definition to one of the files; false if there is none in which it would clash.
func (c *clash) apply(p *Project) (string, bool) {
	r := newRand(c.Pick)
	flat := p.Flatten(0)
	all := append(append(append([]*PDecl(nil), flat.Types...), flat.Errors...), flat.Services...)
	if len(all) == 0 {
		return "", false
	}
	x := all[r.IntN(len(all))]
	d := PDecl{Kind: x.Kind, Name: x.Name}
	if c.Case {
		d.Name = x.Name[:1] + strings.ToUpper(x.Name[1:])
	}
	switch x.Kind {
	case "error":
		d.Code, d.Msg = 7000+r.IntN(100), "clash"
		if c.Code {
			d.Name, d.Code = "Clash"+x.Name, x.Code
		}
	case "service":
		d.Methods = []PMethod{{Name: "Clash"}}
	default:
		d.Kind, d.Fields = "struct", []PField{{Name: "clash", Type: "string"}}
	}
	for _, i := range r.Perm(len(p.Files)) {
		q := p.clone()
		q.Files[i] = cloneFile(q.Files[i])
		q.Files[i].Decls = append(q.Files[i].Decls, d)
		n := 0
		g := q.Flatten(0)
		for _, l := range [][]*PDecl{g.Types, g.Errors, g.Services} {
			for _, e := range l {
				if e.Kind == d.Kind && e.Name == d.Name && (len(e.Fields) > 0 && e.Fields[0].Name == "clash" || e.Msg == "clash" || len(e.Methods) == 1 && e.Methods[0].Name == "Clash") {
					n++
				}
			}
		}
		if n == 1 && (len(g.Types) > len(flat.Types) || len(g.Errors) > len(flat.Errors) || len(g.Services) > len(flat.Services)) {
			keep := 0
			for _, l := range [][]*PDecl{g.Types, g.Errors, g.Services} {
				for _, e := range l {
					if e.Kind == x.Kind && e.Name == x.Name {
						keep++
					}
				}
			}
			if keep == 0 {
				continue
			}
			*p = *q
			return fmt.Sprintf("%s %s in %s", d.Kind, d.Name, p.Files[i].Path), true
		}
	}
	return "", false
}

func genC01(r *rand.Rand, tier string) any {
	o := genOpts{Big: true}
	if tier == "thorough" && r.IntN(4) == 0 {
		o = genOpts{MaxFiles: 10, MaxDecls: 9, Big: true}
	}
	b := &c01Body{S: genBusySched(r), Proj: GenProject(r, o), Edit: -1}
	b.JSON = r.IntN(5) == 0
	b.Rel = r.IntN(4) == 0
	ps := b.Proj.paths()
	if b.JSON {
		ps = []string{"/work/schema.json"}
	}
	b.Faults = genReadFaults(r, ps, r.IntN(3) == 0)
	if r.IntN(3) == 0 {
		if b.JSON {
			b.Faults = genTornRead(r, ps[0], b.Proj.Flatten(0).RenderJSON())
		} else {
			i := r.IntN(len(ps))
			b.Faults = genTornRead(r, ps[i], b.Proj.Render(i))
		}
	}
	if b.Rel && r.IntN(4) == 0 {
		b.Faults = append(b.Faults, Fault{Class: "getcwd", Nth: 1, Kind: pick(r, []string{"ENOENT", "EACCES"})})
	}
	if r.IntN(3) == 0 {
		b.Chunk = 1 + r.IntN(64)
	}
	if r.IntN(2) == 0 {
		b.Edit = r.IntN(len(b.Proj.Files))
	}
	b.Warm = r.IntN(3) == 0
	b.FS = r.IntN(4) == 0
	if r.IntN(5) == 0 {
		b.Clash = &clash{Pick: r.Uint64(), Code: r.IntN(3) == 0, Case: r.IntN(3) == 0}
	}
	return b
}

func execC01(bb any, res *Result) {
	b := bb.(*c01Body)
	b.Proj.sanitize()
	w := &World{S: b.S, ReadChunk: b.Chunk}
	res.Note = b.Proj.note()
	clashes := ""
	if b.Clash != nil {
		b.Proj = b.Proj.clone()
		clashes, _ = b.Clash.apply(b.Proj)
		res.Note += " clash: " + clashes
	}
	want := b.Proj.Flatten(0)
	root := b.Proj.Files[0].Path
	if b.JSON {
		root = "/work/schema.json"
	}
	arg := root
	if b.Rel {
		arg = relTo("/work", root)
	}
	arg = viaFS(arg, b.FS)
	faults := faultPtrs(b.Faults)
	var warm, faulty, clean *loaded
	out := RunWorld(w, func(w *World) {
		b.Proj.Write(w)
		if b.JSON {
			w.WriteFile(root, want.RenderJSON())
		}
		p := w.Spawn("load", 0, func() {
			if b.Warm {
				warm = load(arg)
			}
			w.Faults = faults
			faulty = load(arg)
			w.Faults = nil
			if b.Edit >= 0 && b.Edit < len(b.Proj.Files) {
				q := b.Proj.clone()
				q.Files[b.Edit] = bump(q.Files[b.Edit], 2)
				b.Proj = q
				b.Proj.Write(w)
				if b.JSON {
					w.WriteFile(root, q.Flatten(0).RenderJSON())
				}
			}
			clean = load(arg)
		})
		endsWell(res, w, p, time.Hour)
	})
	res.add(w, out)
	if res.Violation != "" || clean == nil {
		return
	}
	hard := false
	for _, f := range faults {
		if f.Fired() && !softFault(f) {
			hard = true
		}
	}
	wantCanon := want.Canon()
	if clashes != "" {
		res.Count("clashing_definitions", 1)
		for _, l := range []*loaded{warm, faulty, clean} {
			if l != nil && l.Err == "" {
				res.Fail("clash-accepted", "two definitions clash (%s), yet the load succeeded with one schema: %s", clashes, diffText(wantCanon, l.Canon))
			}
		}
		return
	}
	if warm != nil {
		if warm.Err != "" {
			res.Fail("clean-load-fails", "a load without any fault failed: %s", warm.Err)
		} else if warm.Canon != wantCanon {
			res.Fail("wrong-schema", "a load without any fault gave another schema: %s", diffText(wantCanon, warm.Canon))
		}
	}
	if faulty.Err == "" && faulty.Canon != wantCanon {
		res.Fail("partial-schema", "a load under storage faults succeeded with another schema: %s", diffText(wantCanon, faulty.Canon))
	}
	if faulty.Err == "" && faulty.S == nil {
		res.Fail("partial-schema", "a load succeeded with a nil schema")
	}
	if faulty.Err != "" && faulty.S != nil && !b.JSON {
		res.Fail("partial-schema", "a failed load also returned a schema")
	}
	if faulty.Err != "" && !hard {
		res.Fail("soft-fault-fails", "short or interrupted reads made a load fail: %s", faulty.Err)
	}
	if clean.Err != "" {
		res.Fail("no-recovery", "the load after the fault was gone failed: %s", clean.Err)
	} else if wc := b.Proj.Flatten(0).Canon(); clean.Canon != wc {
		res.Fail("stale-schema", "the load after the fault was gone gave another schema: %s", diffText(wc, clean.Canon))
	}
	res.NoteState(fmt.Sprint(faulty.Err == "", hard, len(b.Proj.Files), b.JSON, faulty.Err))
}

func shrinkFaults(fs []Fault, set func([]Fault)) {
	for i := range fs {
		g := append([]Fault(nil), fs[:i]...)
		g = append(g, fs[i+1:]...)
		set(g)
	}
	for i := range fs {
		if fs[i].Nth > 1 {
			g := append([]Fault(nil), fs...)
			g[i].Nth = fs[i].Nth / 2
			set(g)
			g = append([]Fault(nil), fs...)
			g[i].Nth--
			set(g)
		}
	}
}

func shrinkC01(bb any) []any {
	b := bb.(*c01Body)
	var out []any
	with := func(f func(c *c01Body)) {
		c := *b
		f(&c)
		out = append(out, &c)
	}
	with(func(c *c01Body) { c.Faults = nil })
	for _, q := range shrinkProject(b.Proj) {
		with(func(c *c01Body) { c.Proj = q })
	}
	shrinkFaults(b.Faults, func(f []Fault) { with(func(c *c01Body) { c.Faults = f }) })
	if b.Chunk != 0 {
		with(func(c *c01Body) { c.Chunk = 0 })
	}
	if b.Rel {
		with(func(c *c01Body) { c.Rel = false })
	}
	if b.Warm {
		with(func(c *c01Body) { c.Warm = false })
	}
	if b.Clash != nil {
		with(func(c *c01Body) { c.Clash = nil })
	}
	if b.Edit >= 0 {
		with(func(c *c01Body) { c.Edit = -1 })
		with(func(c *c01Body) { c.Edit = 0 })
	}
	for _, s := range shrinkSched(b.S) {
		with(func(c *c01Body) { c.S = s })
	}
	return out
}

// ---- C02 ----

type damage struct {
	Kind string // truncate, zero, garble, drop, dup, insert, replace, null
	At   int
	Len  int
	Seed uint64
}

type c02Body struct {
	S      Sched
	Proj   *Project
	Other  *Project // source of replacing documents
	File   int
	JSON   bool `json:",omitempty"`
	Damage []damage
}

func genC02(r *rand.Rand, tier string) any {
	o := genOpts{MaxFiles: 3, MaxDecls: 6, Big: true}
	b := &c02Body{S: genBusySched(r), Proj: GenProject(r, o)}
	b.File = r.IntN(len(b.Proj.Files))
	b.JSON = r.IntN(4) == 0
	size := len(b.Proj.Render(b.File))
	if b.JSON {
		size = len(b.Proj.Flatten(0).RenderJSON())
	}
	n := 1
	if r.IntN(3) == 0 {
		n = 2 + r.IntN(3)
	}
	for i := 0; i < n; i++ {
		d := damage{At: r.IntN(size + 1), Seed: r.Uint64()}
		switch r.IntN(4) {
		case 0:
			d.Len = 1
		case 1:
			d.Len = 1 + r.IntN(6)
		case 2:
			d.Len = 1 + r.IntN(60)
		default:
			d.Len = 1 + r.IntN(min(size+1, 100_000))
		}
		d.Kind = pick(r, []string{"truncate", "zero", "zero", "garble", "garble", "syntax", "syntax", "eol", "eol", "drop", "dup", "again", "insert", "replace", "bits"})
		if b.JSON && r.IntN(2) == 0 {
			d.Kind = "null"
		}
		b.Damage = append(b.Damage, d)
	}
	b.Other = GenProject(r, genOpts{MaxFiles: 1, MaxDecls: 3})
	return b
}

var syntaxBits = []string{"map<", "map<,>", "map<S0x0,string>", "map<T0x0,string>", "[]", "[]>", "<", ">", "(", ")", "\"", "\\", "\"\\\n", "=>", "= ", ":", "- ", "+ ", "?", "#", "@", "@a:", "|", "import ", "import x\n", "import\n  - ", "struct ", "enum ", "type A: A\n", "type B: C\ntype C: B\n",
	"error ", "service ", "stream ", "errors ", "proxy ", "\n\n", "\r", "\r\n", "\x00", "\xff\xfe", "\ufeff", "\u00a0", "map<string,", "webrpc = v1\n", "name = \n", "struct s\n", "- a: []\n", "- a: map\n", "- a: map<>\n", "- a: map<string>\n", "- M(", "- M(a) => (b)\n", "enum E0: S0\n", "99999999999999999999", "\x1a", "{", "}", "¿", "message X\n",
	"- stream stream M()\n", "- proxy M\n", "+ json = -\n", "+ json\n", "+ json = \"\n", "error 1 A \"x\" HTTP\n", "error 0 A \"\" HTTP 99999\n", "import \"\"\n", "import .\n", "import /\n", "import ../../../../../..\n", "import ./a/../../..//x\n"}

func applyDamage(text string, d damage, other string) string {
	r := newRand(d.Seed)
	at := min(d.At, len(text))
	end := min(at+d.Len, len(text))
	switch d.Kind {
	case "truncate":
		return text[:at]
	case "zero":
		return text[:at] + strings.Repeat("\x00", end-at) + text[end:]
	case "garble":
		b := []byte(text)
		for i := at; i < end; i++ {
			b[i] = byte(r.Uint32())
		}
		return string(b)
	case "bits":
		b := []byte(text)
		if at < len(b) {
			b[at] ^= 1 << (r.Uint32() % 8)
		}
		return string(b)
	case "syntax":
		var s strings.Builder
		for i := 0; i < 1+int(r.Uint32()%3); i++ {
			s.WriteString(syntaxBits[int(r.Uint32())%len(syntaxBits)])
		}
		if r.Uint32()%2 == 0 {
			end = at
		} else {
			end = min(at+min(d.Len, 12), len(text))
		}
		return text[:at] + s.String() + text[end:]
	case "eol": // at the end of a line, which may become the last
		if i := strings.IndexByte(text[at:], '\n'); i >= 0 {
			at += i
		} else {
			at = len(text)
		}
		bit := syntaxBits[int(r.Uint32())%len(syntaxBits)]
		if r.Uint32()%3 == 0 {
			bit = "\\"
		}
		if r.Uint32()%2 == 0 {
			bit = " " + bit
		}
		if r.Uint32()%3 == 0 {
			return text[:at] + bit
		}
		return text[:at] + bit + text[at:]
	case "drop":
		return text[:at] + text[end:]
	case "dup":
		return text[:end] + text[at:end] + text[end:]
	case "again": // a definition, or a line of one, a second time somewhere later
		head := func(l string) bool { return l != "" && l[0] >= 'a' && l[0] <= 'z' }
		lines := strings.SplitAfter(text, "\n")
		var starts []int
		for i, l := range lines {
			if head(l) {
				starts = append(starts, i)
			}
		}
		if len(starts) == 0 {
			return text
		}
		k := int(r.Uint32()) % len(starts)
		from, to := starts[k], len(lines)
		if k+1 < len(starts) {
			to = starts[k+1]
		}
		where := to
		switch r.Uint32() % 3 {
		case 0: // before a later definition
			if later := starts[k+1:]; len(later) > 0 {
				where = later[int(r.Uint32())%len(later)]
			}
		case 1:
			where = len(lines)
		default: // one line of it, right below
			from += int(r.Uint32()) % (to - from)
			to = from + 1
			where = to
		}
		def := strings.Join(lines[from:to], "")
		if !strings.HasSuffix(def, "\n") {
			def = "\n" + def
		}
		return strings.Join(lines[:where], "") + def + strings.Join(lines[where:], "")
	case "insert":
		return text[:at] + other[:min(len(other), d.Len)] + text[at:]
	case "replace":
		return other
	case "null":
		// a JSON value replaced by another value
		var spots [][2]int
		for i := 0; i < len(text); i++ {
			if text[i] == ':' || text[i] == '[' || text[i] == ',' {
				j := i + 1
				for j < len(text) && (text[j] == ' ' || text[j] == '\n') {
					j++
				}
				k := jsonEnd(text, j)
				if k > j {
					spots = append(spots, [2]int{j, k})
				}
			}
		}
		if len(spots) == 0 {
			return text
		}
		s := spots[int(r.Uint32())%len(spots)]
		v := []string{"null", "null", "null", "\"\"", "{}", "[]", "0", "-1", "[null]", "\"map<S,string>\"", "\"map<string\"", "\"[]\"", "\"map<>\"", "{\"x\":null}", "1e99", "true", "\"map<\"", "\"[]map<string,\""}[int(r.Uint32())%18]
		if r.Uint32()%12 == 0 {
			return v
		}
		return text[:s[0]] + v + text[s[1]:]
	}
	return text
}

// jsonEnd finds the end of the value that starts at i.
func jsonEnd(t string, i int) int {
	if i >= len(t) {
		return i
	}
	depth, inStr := 0, false
	for j := i; j < len(t); j++ {
		c := t[j]
		if inStr {
			if c == '\\' {
				j++
			} else if c == '"' {
				inStr = false
				if depth == 0 {
					return j + 1
				}
			}
			continue
		}
		switch c {
		case '"':
			inStr = true
		case '{', '[':
			depth++
		case '}', ']':
			if depth == 0 {
				return j
			}
			depth--
			if depth == 0 {
				return j + 1
			}
		case ',', '\n':
			if depth == 0 {
				return j
			}
		}
	}
	return len(t)
}

func (b *c02Body) text() (string, string) {
	var text, other string
	if b.JSON {
		text, other = b.Proj.Flatten(0).RenderJSON(), b.Other.Flatten(0).RenderJSON()
	} else {
		text, other = b.Proj.Render(b.File), b.Other.Render(0)
	}
	for _, d := range b.Damage {
		text = applyDamage(text, d, other)
	}
	return text, other
}

func execC02(bb any, res *Result) {
	b := bb.(*c02Body)
	b.Proj.sanitize()
	b.Other.sanitize()
	if b.File >= len(b.Proj.Files) {
		b.File = 0
	}
	w := &World{S: b.S}
	text, _ := b.text()
	res.Note = fmt.Sprintf("%v applied to %s", b.Damage, trimText(b.Proj.note(), 400))
	for _, d := range b.Damage {
		res.Count("damage."+d.Kind, 1)
	}
	root := b.Proj.Files[0].Path
	if b.JSON {
		root = "/work/schema.json"
	}
	total := len(text)
	var l *loaded
	leak := 0
	var open []string
	var steps uint64
	out := RunWorld(w, func(w *World) {
		b.Proj.Write(w)
		if b.JSON {
			w.WriteFile(root, text)
		} else {
			w.WriteFile(b.Proj.Files[b.File].Path, text)
		}
		for i := range b.Proj.Files {
			total += len(b.Proj.Render(i))
		}
		w.Budget = stepBound(total, len(b.Proj.Files))
		dstrt.SetTick(w.Budget, b.S.Yield)
		var p *Proc
		p = w.Spawn("load", 0, func() {
			s0 := dstrt.Steps()
			l = load(root)
			steps = dstrt.Steps() - s0
			l.detail()
			w.settle()
			leak = dstrt.Live(p.ID) - 1
			open = p.OpenFDs()
		})
		endsWell(res, w, p, time.Hour)
	})
	res.add(w, out)
	res.Log = append(res.Log, fmt.Sprintf("damaged text: %q", trimText(text, 3000)))
	if res.Violation != "" || l == nil {
		return
	}
	_ = steps
	if leak > 0 {
		res.Fail("leak", "%d goroutines remain after the load of a damaged file returned (error %q)", leak, l.Err)
	}
	if len(open) > 0 {
		res.Fail("leak", "files remain open: %v", open)
	}
	if l.Err == "" && l.S == nil {
		res.Fail("nil-schema", "a load returned neither schema nor error")
		return
	}
	if l.Err == "" && !b.JSON {
		names := map[string]bool{}
		fields := map[string][]string{}
		for _, t := range l.S.Types {
			names[t.Kind+" "+t.Name] = true
			for _, f := range t.Fields {
				fields[t.Kind+" "+t.Name] = append(fields[t.Kind+" "+t.Name], f.Name)
			}
		}
		for _, e := range l.S.Errors {
			names["error "+e.Name] = true
		}
		for _, s := range l.S.Services {
			names["service "+s.Name] = true
			for _, m := range s.Methods {
				fields["service "+s.Name] = append(fields["service "+s.Name], m.Name)
			}
		}
		check := func(p *Project, file int) {
			for i := range p.Files[file].Decls {
				d := &p.Files[file].Decls[i]
				src := renderDecl(d)
				if !strings.Contains("\n"+text, "\n"+src) {
					continue
				}
				kind := d.Kind
				if kind == "type" {
					kind = "alias"
				}
				if !names[kind+" "+d.Name] && b.visible(file, d, p) {
					res.Fail("silent-loss", "%s %s stands undamaged in %s, yet the load succeeded without it", d.Kind, d.Name, b.Proj.Files[b.File].Path)
				}
				if names[kind+" "+d.Name] && b.visible(file, d, p) {
					var want []string
					for _, f := range d.Fields {
						want = append(want, f.Name)
					}
					for _, m := range d.Methods {
						want = append(want, m.Name)
					}
					got := fields[kind+" "+d.Name]
					for i, f := range want {
						if i >= len(got) || got[i] != f {
							res.Fail("silent-loss", "%s %s stands undamaged in %s, yet the load succeeded with members %v of it instead of %v", d.Kind, d.Name, b.Proj.Files[b.File].Path, got, want)
							break
						}
					}
				}
			}
		}
		check(b.Proj, b.File)
		if b.File == 0 {
			check(b.Other, 0)
			if lost := lostWords(text, l.JSON); len(lost) > 0 && res.Violation == "" {
				res.Fail("word-loss", "the load succeeded, yet of the damaged source the words %q are nowhere in the schema", lost)
			}
		}
	}
	res.NoteState(fmt.Sprint(b.JSON, l.Err, len(l.Canon)))
}

// ridlWords are the words of the language, which say how a schema is put together and do not appear in it.
var ridlWords = map[string]bool{
	"webrpc": true, "name": true, "version": true, "basepath": true, "import": true, "struct": true, "enum": true,
	"error": true, "type": true, "service": true, "stream": true, "proxy": true, "errors": true, "HTTP": true, "message": true,
}

// lateImport matches an import that begins behind something else in the same line, such as a proxy method or a value in quotes.
var lateImport = regexp.MustCompile(`^[^#]*[\s")]import(\s|$)`)

// lostWords gives the words of a source that do not appear in the schema loaded from it. Comments, imports
// and the header, of which the last one counts, are left out.
func lostWords(text, schemaJSON string) []string {
	var lost []string
	imports := false
	flat := strings.ToLower(strings.ReplaceAll(schemaJSON, "\\", ""))
	for _, line := range strings.Split(text, "\n") {
		trimmed := strings.TrimSpace(line)
		first, _, _ := strings.Cut(trimmed, " ")
		switch {
		case strings.HasPrefix(trimmed, "import"), lateImport.MatchString(trimmed):
			imports = true
		case imports && (trimmed == "" || trimmed[0] == '-' || trimmed[0] == '#'):
		default:
			imports = false
		}
		first, _, _ = strings.Cut(first, "=")
		if imports || first == "webrpc" || first == "name" || first == "version" || first == "basepath" {
			continue
		}
		inStr, escaped := false, false
		word := ""
		flush := func() {
			if strings.Trim(word, "0123456789") == "" {
				word = strings.TrimLeft(word, "0")
			}
			if len(word) > 0 && !ridlWords[word] && !strings.Contains(flat, strings.ToLower(word)) { // names of types are matched without regard to case
				lost = append(lost, word)
			}
			word = ""
		}
	chars:
		for i := 0; i < len(trimmed); i++ {
			c := trimmed[i]
			if escaped {
				escaped = false
				flush()
				continue
			}
			switch {
			case c == '\\':
				escaped = true
				flush()
			case c == '"' && inStr:
				inStr = false
				flush()
			case c == '"' && (i == 0 || trimmed[i-1] == ' ' || trimmed[i-1] == '\t' || trimmed[0] == '@'):
				inStr = true
				flush()
			case c == '#' && !inStr && word == "":
				break chars
			case 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9':
				word += string(c)
			default:
				flush()
			}
		}
		flush()
	}
	return lost
}

// visible tells whether a declaration of the damaged file has to appear in the root schema.
func (b *c02Body) visible(file int, d *PDecl, p *Project) bool {
	if b.File == 0 {
		return true
	}
	if p != b.Proj {
		return false
	}
	return p.Flatten(0).find(d.Name) != nil
}

// stepBound is the bound on function calls and loop iterations of one load of sources of that size.
func stepBound(bytes, files int) uint64 {
	n := uint64(bytes + 200)
	return 3_000_000 + n*6_000*uint64(1+files) + n*n/4
}

func shrinkC02(bb any) []any {
	b := bb.(*c02Body)
	var out []any
	with := func(f func(c *c02Body)) {
		c := *b
		f(&c)
		out = append(out, &c)
	}
	for i := range b.Damage {
		if len(b.Damage) > 1 {
			with(func(c *c02Body) {
				c.Damage = append(append([]damage(nil), b.Damage[:i]...), b.Damage[i+1:]...)
			})
		}
	}
	for _, q := range shrinkProject(b.Proj) {
		with(func(c *c02Body) {
			c.Proj = q
			if c.File >= len(q.Files) {
				c.File = 0
			}
		})
	}
	for i, d := range b.Damage {
		set := func(x damage) {
			with(func(c *c02Body) { c.Damage = append([]damage(nil), b.Damage...); c.Damage[i] = x })
		}
		for _, l := range []int{1, d.Len / 2, d.Len - 1} {
			if l > 0 && l < d.Len {
				x := d
				x.Len = l
				set(x)
			}
		}
		for _, a := range []int{0, d.At / 2, d.At - 20, d.At - 1} {
			if a >= 0 && a < d.At {
				x := d
				x.At = a
				set(x)
			}
		}
		if d.Kind == "garble" {
			x := d
			x.Kind = "zero"
			set(x)
		}
	}
	for _, s := range shrinkSched(b.S) {
		with(func(c *c02Body) { c.S = s })
	}
	return out
}

// ---- C03 ----

type c03Event struct {
	At   int // system call count since the load began
	File int
	Ver  int // 0 is the original
}

type c03Body struct {
	S      Sched
	Proj   *Project
	Events []c03Event
	Loads  int
	FS     bool `json:",omitempty"`
}

func genC03(r *rand.Rand, tier string) any {
	b := &c03Body{S: genBusySched(r), Proj: GenProject(r, genOpts{MaxFiles: 5, MaxDecls: 4})}
	if len(b.Proj.Files) < 2 {
		b.Proj = GenProject(r, genOpts{MaxFiles: 5, MaxDecls: 4})
	}
	calls := 8 * len(b.Proj.Files)
	ver := map[int]int{}
	for i := 0; i <= r.IntN(5); i++ {
		f := r.IntN(len(b.Proj.Files))
		ver[f]++
		v := ver[f]
		if r.IntN(5) == 0 {
			v = 0
		}
		b.Events = append(b.Events, c03Event{At: r.IntN(calls + 4), File: f, Ver: v})
	}
	sort.SliceStable(b.Events, func(i, j int) bool { return b.Events[i].At < b.Events[j].At })
	b.Loads = 1 + r.IntN(2)
	b.FS = r.IntN(4) == 0
	return b
}

func execC03(bb any, res *Result) {
	b := bb.(*c03Body)
	b.Proj.sanitize()
	w := &World{S: b.S}
	res.Note = fmt.Sprintf("%s with replacements %v", b.Proj.note(), b.Events)
	n := len(b.Proj.Files)
	version := func(file, v int) PFile {
		if v == 0 {
			return b.Proj.Files[file]
		}
		return bump(b.Proj.Files[file], v)
	}
	cur := make([]int, n)
	var during []map[int]bool // versions that existed during each load, per load
	start := func() {
		m := make([]map[int]bool, n)
		for i := range m {
			m[i] = map[int]bool{cur[i]: true}
		}
		during = m
	}
	type outcome struct {
		l    *loaded
		vers []map[int]bool
	}
	var outs []outcome
	next := 0
	base := 0
	active := false
	root := b.Proj.Files[0].Path
	w.OnSys = func(p *Proc, class, name string) {
		if !active {
			return
		}
		for next < len(b.Events) && w.Sys-base > b.Events[next].At {
			e := b.Events[next]
			next++
			if e.File >= n {
				continue
			}
			q := &Project{Files: append([]PFile(nil), b.Proj.Files...)}
			q.Files[e.File] = version(e.File, e.Ver)
			w.WriteFile(b.Proj.Files[e.File].Path, q.Render(e.File))
			w.Stats["event.replace"]++
			w.logf("replace %s version %d", b.Proj.Files[e.File].Path, e.Ver)
			cur[e.File] = e.Ver
			during[e.File][e.Ver] = true
		}
	}
	out := RunWorld(w, func(w *World) {
		b.Proj.Write(w)
		p := w.Spawn("load", 0, func() {
			base = w.Sys
			for i := 0; i < b.Loads; i++ {
				start()
				active = true
				l := load(viaFS(root, b.FS))
				active = false
				outs = append(outs, outcome{l, during})
			}
		})
		endsWell(res, w, p, time.Hour)
	})
	res.add(w, out)
	if res.Violation != "" {
		return
	}
	for i, o := range outs {
		if o.l.Err != "" {
			res.Count("loads_failed", 1)
			continue
		}
		// Try every combination of versions that existed.
		vec := make([]int, n)
		var lists [][]int
		combos := 1
		for j := 0; j < n; j++ {
			var l []int
			for v := range o.vers[j] {
				l = append(l, v)
			}
			sort.Ints(l)
			lists = append(lists, l)
			combos *= len(l)
		}
		res.Count("version_combinations", combos)
		found := false
		first := ""
		for k := 0; k < combos && !found; k++ {
			x := k
			q := &Project{Files: make([]PFile, n)}
			for j := 0; j < n; j++ {
				vec[j] = lists[j][x%len(lists[j])]
				x /= len(lists[j])
				q.Files[j] = version(j, vec[j])
			}
			c := q.Flatten(0).Canon()
			if k == 0 {
				first = c
			}
			if c == o.l.Canon {
				found = true
			}
		}
		if !found {
			res.Fail("mixed-versions", "load %d succeeded with a schema that no choice of one version per file (of %v) yields; against the first choice: %s", i+1, lists, diffText(first, o.l.Canon))
		}
		res.NoteState(fmt.Sprint(combos, found, vec))
	}
}

func shrinkC03(bb any) []any {
	b := bb.(*c03Body)
	var out []any
	with := func(f func(c *c03Body)) {
		c := *b
		f(&c)
		out = append(out, &c)
	}
	for i := range b.Events {
		with(func(c *c03Body) {
			c.Events = append(append([]c03Event(nil), b.Events[:i]...), b.Events[i+1:]...)
		})
	}
	for _, q := range shrinkProject(b.Proj) {
		with(func(c *c03Body) {
			c.Proj = q
			// Files keep their numbers except after a removal; events on others simply miss.
		})
	}
	for i := range b.Events {
		for _, at := range []int{b.Events[i].At / 2, b.Events[i].At - 1} {
			if at >= 0 && at < b.Events[i].At {
				with(func(c *c03Body) {
					c.Events = append([]c03Event(nil), b.Events...)
					c.Events[i].At = at
				})
			}
		}
	}
	if b.Loads > 1 {
		with(func(c *c03Body) { c.Loads = 1 })
	}
	for _, s := range shrinkSched(b.S) {
		with(func(c *c03Body) { c.S = s })
	}
	return out
}

func init() {
	register(&Scenario{Prop: "C01", Gen: genC01, New: func() any { return &c01Body{} }, Exec: execC01, Shrink: shrinkC01, Real: realLoad, Stub: stubLoad,
		Rule: "A seeded RIDL import tree (or its JSON form) is loaded through webrpc.ParseSchemaFile on the simulated disk while planned faults hit single system calls; the result is compared with an independent reference model of flattening, then the load is repeated without faults, sometimes after one file changed."})
	register(&Scenario{Prop: "C02", Gen: genC02, New: func() any { return &c02Body{} }, Exec: execC02, Shrink: shrinkC02, Real: realLoad, Stub: stubLoad,
		Rule: "One file of a seeded project is damaged (truncated, zeroed, garbled, blocks lost, duplicated or replaced, syntax fragments, nulled JSON values) and loaded; step budget, panics, goroutines and open files are watched, and every declaration whose text is intact is looked up in the result."})
	register(&Scenario{Prop: "C03", Gen: genC03, New: func() any { return &c03Body{} }, Exec: execC03, Shrink: shrinkC03, Real: realLoad, Stub: stubLoad,
		Rule: "Files of a seeded project are atomically replaced by other versions at chosen system calls of a running load; a successful result must equal the reference model for some choice of one version per file that existed during the load."})
}

var _ = path.Join
