package sim

import (
	"fmt"
	"math/rand/v2"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/webrpc/webrpc/zz_dst/p0/gen"
	"github.com/webrpc/webrpc/zz_dst/p0/schema"

	dstrt "archive"
)

const realGen = "webrpc root package, schema, schema/ridl, gen (template functions, embedded and local templates), cmd/webrpc-gen of the working tree; gen-javascript, gen-kotlin, gen-dart, gen-openapi, sprig, text/template"
const stubGen = stubLoad + "; gen-golang and gen-typescript templates (their modules are not available offline) are small stand-ins"

// breakage makes one file of a project fail.
type breakage struct {
	File int
	Kind string // missing, eacces, eio, syntax, unresolved, dup, version, back
	Arg  int
}

var breakKinds = []string{"missing", "eacces", "eio", "syntax", "syntax", "unresolved", "dup", "version", "back", "emethod", "empty", "sem", "sem"}

// semCases are declarations that can be read but are not allowed, with a part of the message each has to cause.
var semCases = [][2]string{
	{"error 970 Sem0 \"m\" HTTP 200\n", "Sem0"},
	{"error 971 Sem1 \"m\"\n\nerror 971 Sem1b \"m\"\n", "971"},
	{"error 972 Sem2 \"m\"\n\nerror 973 sEM2 \"m\"\n", "sem2"},
	{"error 0 Sem3 \"m\"\n", "error code"},
	{"error 974 sem4 \"m\"\n", "sem4"},
	{"error 975 WebrpcSem5 \"m\"\n", "WebrpcSem5"},
	{"error 976 Sem6 \"m\" HTTP 600\n", "Sem6"},
	{"enum Sem7: uint32\n  - A\n  - A\n", "Sem7"},
	{"enum Sem8: Sem8x\n  - A\n", "Sem8"},
	{"struct Sem9\n  - a: string\n  - A: string\n", "Sem9"},
	{"struct Sem10\n  - a: map<Sem10,string>\n", "Sem10"},
	{"struct Sem11\n  - a: []Missing11\n", "Sem11"},
	{"service Sem12\n", "Sem12"},
	{"service Sem13\n  - Do()\n  - do()\n", "Sem13"},
	{"service Sem14\n  - Do(a: Missing14)\n", "Missing14"},
	{"service Sem16\n  - Do() => (b: Missing16)\n", "Missing16"},
	{"service Sem17\n  - Do()\n\nservice sEM17\n  - Do()\n", "Sem17"},
	{"type Sem18: Missing18\n", "Sem18"},
	{"struct sem21\n  - a: string\n", "sem21"},
	{"enum Sem23: float64\n  - A\n", "Sem23"},
	{"struct Sem26\n  - a: string\n    + json = b\n  - b: string\n", "Sem26"},
	{"struct Sem27\n  - a: map<bool,string>\n", "Sem27"},
	{"service Sem29\n  - Do(Sem29x)\n", "Sem29x"},
}

// Each case may stand between any two definitions; ^ stands before the line that is wrong. Without it the line is not judged.
var syntaxCases = []string{
	"^%bogus", "^banana", "^ struct", "^\"quoted\"", "^struct Zz {", "^//comment", "^struct Zz é x", "^{", "^)", "^: x", "^Struct Zz", "^. x", "^, x", "^! x", "^? x", "^<x>", "^message X", "^\\ x", "^é", "^1 x",
	"^struct Zz!\n  - a: string", "^struct", "^struct Zz:", "^struct Zz Yy", "^struct 9 9", "struct Zz\n^  a: string", "struct Zz\n^  - a string", "struct Zz\n  - a: string\n^  - : string",
	"struct Zz\n^  - a:", "struct Zz\n^  - a: ", "struct Zz\n^  - a: map<string", "struct Zz\n^  - a: map<string,", "struct Zz\n^  - a: map<string,string", "struct Zz\n^  - a: [string",
	"struct Zz\n^  - a: string string", "struct Zz\n^  - a: [", "struct Zz\n^  - a:: string", "struct Zz\n^  - a?? : string", "struct Zz\n^  -a string", "struct Zz\n  - a: string\n^  + ",
	"struct Zz\n  - a: string\n^    + json", "struct Zz\n  - a: string\n^    + json =", "struct Zz\n  - a: string\n^    + json = \"abc", "struct Zz\n  - a: string\n^    + = x", "struct Zz\n^  - ", "struct Zz\n^  -",
	"struct Zz\n^  - a: []", "struct Zz\n^  - a: string,", "struct Zz\n^  - (a): string", "struct Zz # ok\n  # comment\n  - a: string # x\n\n\n^  - b",
	"^enum Zz uint32\n  - A", "^enum Zz", "^enum Zz:", "^enum: uint32", "^enum Zz: uint32 x", "enum Zz: uint32\n^  - ", "enum Zz: uint32\n^  - A = ", "enum Zz: uint32\n^  - A B", "enum Zz: string\n^  - A = \"x",
	"enum Zz: uint32\n^  A", "enum Zz: uint32\n  - A\n^  - B = = 1", "enum Zz: string\n^  - A = \"x\\q\"", "enum Zz: uint32\n  - A\n^  - =", "enum Zz: string\n^  - A = \"x \\\n  - B",
	"error 12x Zz \"m\"", "^error", "^error 5", "^error 5 Zz", "^error x Zz \"m\"", "^error 5 Zz \"m", "^error 5 Zz m \"m", "^error 5 Zz \"m\" HTTP", "^error 5 Zz \"m\" HTTP abc", "^error 5 Zz \"m\" FTP 5",
	"^error 5 Zz \"m\" HTTP 400 x", "^error 5 Zz \"bad \\q escape\"", "^error -5 Zz \"m\"", "error 5 Zz \"m\"\n^error 6", "^error 5 Zz \"m # no comment", "^error 5 Zz \"m \\",
	"^service Zz!\n  - Do()", "service Zz\n^  - Do(a: string => ()", "service Zz\n  - Do()\n^  - Do2(: string)", "service Zz\n^  - Do() => (a: )", "^service", "^service Zz Yy", "^service Zz:", "service Zz\n^  Do()",
	"service Zz\n^  - Do", "service Zz\n^  - Do(", "service Zz\n^  - Do(a", "service Zz\n^  - Do(a:", "service Zz\n^  - Do(a:string", "service Zz\n^  - Do(a:string,", "service Zz\n^  - Do() =>", "service Zz\n^  - Do() => ",
	"service Zz\n^  - Do() => (", "service Zz\n^  - Do() => stream", "service Zz\n^  - Do() = ()", "service Zz\n^  - Do() errors", "service Zz\n^  - Do() errors A,", "service Zz\n^  - Do() errors ,A",
	"service Zz\n^  - Do() => (a: string) error A", "service Zz\n^  @\n  - Do()", "service Zz\n^  @auth:\"x\n  - Do()", "service Zz\n^  - ()", "service Zz\n^  - Do)(", "service Zz\n^  - stream", "service Zz\n^  - stream Do",
	"service Zz\n^  - proxy Do(x", "service Zz\n  @a\n^  @a\n  - Do()", "service Zz\n  - Do()\n^  @a", "service Zz\n^  @a @a\n  - Do()", "service Zz\n^  @a x\n  - Do()", "service Zz\n^  @a:\"x\" y\n  - Do()",
	"service Zz\n  - Do()\n\n  # comment\n  @a\n  # comment\n  - Do2()\n^  - Do3() => x",
	"^type Zz string", "^type", "^type Zz", "^type Zz:", "^type Zz: string x", "^type Zz: map<", "^type Zz: string = x", "type Zz: string\n^    + json",
	"import\n^  - ", "^import x y", "import\n^  - \"x.ridl", "^import \"x.ridl", "import x.ridl\n^  - \"A",
	"^webrpc", "^webrpc =", "^name = ", "^version v1", "^version = \"x", "^basepath = /x y", "^name : x",
}

// putSyntax puts a case into a text and tells its line (1-based; -1: unknown).
func putSyntax(text string, arg int) (string, int) {
	c := syntaxCases[arg%len(syntaxCases)]
	arg /= len(syntaxCases)
	at := strings.IndexByte(c, '^')
	c = strings.Replace(c, "^", "", 1)
	place := arg % 5
	var starts []int // of definitions
	if place > 2 {
		for i := 0; i < len(text); {
			for _, k := range []string{"struct ", "enum ", "error ", "service ", "type ", "import "} {
				if strings.HasPrefix(text[i:], k) {
					starts = append(starts, i)
				}
			}
			n := strings.IndexByte(text[i:], '\n')
			if n < 0 {
				break
			}
			i += n + 1
		}
	}
	head, tail := text, ""
	if len(starts) > 0 {
		i := starts[arg/5%len(starts)]
		head, tail = text[:i], text[i:]
	} else {
		if !strings.HasSuffix(head, "\n") {
			head += "\n"
		}
		head += "\n"
		switch place {
		case 1:
		case 2:
			tail = "\n# the end\n"
		default:
			tail = "\n"
		}
	}
	if len(starts) > 0 {
		tail = "\n" + tail
	}
	if arg%7 == 0 { // what some count as an end of line, and what some count twice
		odd := []string{"\v", "\f", "\u2028", "\u0085", "\\n", "\t\t", "#", "é", "\U0001F600", "\\"}
		head += "# a remark " + odd[arg/7%len(odd)] + " more" + odd[arg/70%len(odd)] + "\n\n"
	}
	line := -1
	if at >= 0 {
		line = 1 + strings.Count(head+c[:at], "\n")
	}
	return head + c + tail, line
}

// text gives the source of file i under the given breakages, and the line of a syntax error (1-based; 0: none, -1: unknown).
func (p *Project) brokenText(i int, bs []breakage) (string, int) {
	q := &Project{Files: append([]PFile(nil), p.Files...)}
	line := 0
	for _, b := range bs {
		if b.File == i && b.Kind == "back" && b.Arg < len(p.Files) && b.Arg >= 0 {
			q.Files[i] = cloneFile(q.Files[i])
			q.Files[i].Imports = append(q.Files[i].Imports, PImport{File: b.Arg, Spell: i, List: true})
		}
	}
	for _, b := range bs {
		if b.File == i && b.Kind == "version" {
			q.Files[i].Web = "v2"
		}
	}
	text := q.Render(i)
	for _, b := range bs {
		if b.File != i {
			continue
		}
		add := func(s string) int {
			if !strings.HasSuffix(text, "\n") {
				text += "\n"
			}
			text += "\n"
			n := strings.Count(text, "\n") + 1
			text += s
			return n
		}
		switch b.Kind {
		case "empty":
			text = []string{"", " ", "\n", "# nothing\n", "\t\n\n# a\n# b", "\r\n", "name = left\n\nversion = v0.1.0\n", "name = left\nversion = v0.1.0\n\nstruct Left0\n  - a: string\n"}[uint(b.Arg)%8]
		case "syntax":
			var n int
			text, n = putSyntax(text, b.Arg)
			if line == 0 {
				line = n
			}
		case "sem":
			add(semCases[b.Arg%len(semCases)][0])
		case "unresolved":
			add("struct Unres0\n  - a: Missing0\n")
		case "emethod":
			add("service Unres1\n  - Do() errors Missing1\n")
		case "dup":
			add("struct Dup0\n  - a: string\n\nstruct dUP0x\n  - a: string\n\nstruct DUP0\n  - b: string\n")
		}
	}
	return text, line
}

// writeBroken puts the project on disk and returns the faults that belong to the breakages.
func (p *Project) writeBroken(w *World, bs []breakage) []*Fault {
	p.linkDirs(w)
	var faults []*Fault
	empty := map[int]bool{}
	for i := range p.Files {
		text, _ := p.brokenText(i, bs)
		empty[i] = text == ""
		w.WriteFile(p.Files[i].Path, text)
	}
	p.link(w)
	for _, b := range bs {
		if b.File < 0 || b.File >= len(p.Files) {
			continue
		}
		pa := p.Files[b.File].Path
		switch b.Kind {
		case "missing":
			w.Remove(pa)
		case "eacces":
			faults = append(faults, &Fault{Class: "open", Path: pa, Nth: 1, Kind: "EACCES", Sticky: true})
		case "eio":
			nth := 1 + b.Arg%2
			if empty[b.File] { // the first read is the only one
				nth = 1
			}
			faults = append(faults, &Fault{Class: "read", Path: pa, Nth: nth, Kind: "EIO", Sticky: true})
		}
	}
	return faults
}

// edges lists the imports of every file, with the back edges of the breakages.
func (p *Project) edges(bs []breakage) [][]int {
	out := make([][]int, len(p.Files))
	for i := range p.Files {
		for _, im := range p.Files[i].Imports {
			out[i] = append(out[i], im.File)
		}
	}
	for _, b := range bs {
		if b.Kind == "back" && b.File >= 0 && b.File < len(p.Files) && b.Arg >= 0 && b.Arg < len(p.Files) {
			out[b.File] = append(out[b.File], b.Arg)
		}
	}
	return out
}

func reach(e [][]int, from int) map[int]bool {
	seen := map[int]bool{}
	var walk func(i int)
	walk = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for _, j := range e[i] {
			walk(j)
		}
	}
	walk(from)
	return seen
}

// cyclic tells whether a cycle is reachable.
func cyclic(e [][]int, from int) bool {
	state := make([]int, len(e))
	var walk func(i int) bool
	walk = func(i int) bool {
		if state[i] == 1 {
			return true
		}
		if state[i] == 2 {
			return false
		}
		state[i] = 1
		for _, j := range e[i] {
			if walk(j) {
				return true
			}
		}
		state[i] = 2
		return false
	}
	return walk(from)
}

func genSoftFaults(r *rand.Rand, paths []string, n int) []Fault {
	var out []Fault
	for i := 0; i < n; i++ {
		f := Fault{Nth: 1 + r.IntN(6)}
		if r.IntN(2) == 0 {
			f.Path = pick(r, paths)
		}
		switch r.IntN(3) {
		case 0:
			f.Class, f.Kind, f.Arg, f.Sticky = "read", "short", int64(1+r.IntN(40)), r.IntN(2) == 0
		case 1:
			f.Class, f.Kind = pick(r, []string{"open", "read"}), "EINTR"
		default:
			f.Class, f.Kind, f.Arg = "any", "stall", int64(ms(1+r.IntN(2000)))
		}
		out = append(out, f)
	}
	return out
}

func clampBreaks(bs []breakage, n int) []breakage {
	var out []breakage
	for _, b := range bs {
		if b.File >= 0 && b.File < n && (b.Kind != "back" || b.Arg <= b.File) {
			out = append(out, b)
		}
	}
	return out
}

func genBreaks(r *rand.Rand, n, max int, kinds []string) []breakage {
	var out []breakage
	for i := 0; i < max; i++ {
		b := breakage{File: r.IntN(n), Kind: pick(r, kinds), Arg: r.IntN(1 << 16)}
		if b.Kind == "back" {
			b.Arg = r.IntN(b.File + 1)
		}
		out = append(out, b)
	}
	return out
}

// ---- C04 ----

type c04Load struct {
	Root   int
	Rel    bool
	JSON   bool
	Times  int
	Delay  int // yields before the start
	Detail bool
	FS     bool `json:",omitempty"`
}

type c04Body struct {
	S      Sched
	Proj   *Project
	Breaks []breakage
	Loads  []c04Load
	Faults []Fault
	Lat    int
	Share  bool // results are used by several goroutines afterwards
}

func genC04(r *rand.Rand, tier string) any {
	b := &c04Body{S: genBusySched(r), Proj: GenProject(r, genOpts{MaxFiles: 5, MaxDecls: 4})}
	n := len(b.Proj.Files)
	if r.IntN(3) > 0 {
		b.Breaks = genBreaks(r, n, 1+r.IntN(2), breakKinds)
	}
	k := 2 + r.IntN(4)
	if tier == "thorough" {
		k = 2 + r.IntN(9)
	}
	for i := 0; i < k; i++ {
		l := c04Load{Root: r.IntN(n), Rel: r.IntN(3) == 0, Times: 1 + r.IntN(2), Delay: r.IntN(3), Detail: r.IntN(2) == 0, FS: r.IntN(4) == 0}
		if r.IntN(2) == 0 {
			l.Root = 0
		}
		if r.IntN(6) == 0 {
			l.JSON = true
		}
		b.Loads = append(b.Loads, l)
	}
	b.Faults = genSoftFaults(r, b.Proj.paths(), r.IntN(4))
	b.Lat = r.IntN(3) * 5
	b.Share = r.IntN(3) == 0
	return b
}

func execC04(bb any, res *Result) {
	b := bb.(*c04Body)
	b.Proj.sanitize()
	n := len(b.Proj.Files)
	b.Breaks = clampBreaks(b.Breaks, n)
	res.Note = fmt.Sprintf("%s breakages %v loads %v", b.Proj.note(), b.Breaks, b.Loads)
	arg := func(l c04Load) string {
		root := l.Root
		if root < 0 || root >= n {
			root = 0
		}
		if l.JSON {
			return "/work/schema.json"
		}
		a := b.Proj.Files[root].Path
		if l.Rel {
			a = relTo("/work", a)
		}
		return viaFS(a, l.FS)
	}
	setup := func(w *World) {
		w.Faults = b.Proj.writeBroken(w, b.Breaks)
		w.WriteFile("/work/schema.json", b.Proj.Flatten(0).RenderJSON())
	}
	// Each load alone, in a process of its own.
	solo := map[string]*loaded{}
	w1 := &World{S: plainSched()}
	out := RunWorld(w1, func(w *World) {
		setup(w)
		for _, l := range b.Loads {
			a := arg(l)
			if solo[a] != nil {
				continue
			}
			p := w.Spawn("solo", 0, func() {
				solo[a] = load(a)
				solo[a].detail()
			})
			endsWell(res, w, p, time.Hour)
		}
	})
	res.add(w1, out)
	if res.Violation != "" {
		return
	}
	type one struct {
		arg string
		l   *loaded
	}
	got := make([][]one, len(b.Loads))
	w2 := &World{S: b.S, MaxSysLat: ms(b.Lat), Budget: 500_000_000}
	out = RunWorld(w2, func(w *World) {
		setup(w)
		w.Faults = append(w.Faults, faultPtrs(b.Faults)...)
		p := w.Spawn("load", 0, func() {
			var wg sync.WaitGroup
			for i, l := range b.Loads {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < l.Delay; k++ {
						dstrt.Yield()
					}
					for k := 0; k < l.Times; k++ {
						a := arg(l)
						r := load(a)
						if l.Detail {
							r.detail()
						}
						got[i] = append(got[i], one{a, r})
					}
				}()
			}
			wg.Wait()
			for i := range got {
				for k := range got[i] {
					r := got[i][k].l
					if b.Share && r.S != nil && r.Err == "" {
						for j := 0; j < 3; j++ {
							wg.Add(1)
							go func() {
								defer wg.Done()
								c := *r
								c.detail()
								if c.JSON != solo[got[i][k].arg].JSON || c.Hash != solo[got[i][k].arg].Hash {
									w.Fail("a schema loaded beside others serialises differently under concurrent use")
								}
							}()
						}
					}
				}
			}
			wg.Wait()
			for i := range got {
				for k := range got[i] {
					got[i][k].l.detail()
				}
			}
		})
		endsWell(res, w, p, time.Hour)
	})
	res.add(w2, out)
	if res.Violation != "" {
		return
	}
	fails := 0
	for i := range got {
		for k, g := range got[i] {
			s := solo[g.arg]
			if g.l.Err != "" {
				fails++
			}
			if g.l.Err != s.Err {
				res.Fail("interference", "load %d/%d of %s beside others ends with %q, alone with %q", i, k, g.arg, g.l.Err, s.Err)
			} else if g.l.key() != s.key() {
				res.Fail("interference", "load %d/%d of %s beside others gives another schema than alone: %s", i, k, g.arg, diffText(s.key(), g.l.key()))
			}
		}
	}
	res.Count("loads_compared", len(b.Loads))
	res.Count("loads_failing", fails)
	res.NoteState(fmt.Sprint(len(b.Loads), fails, out.SchedHash))
}

// ---- C05 ----

type c05Body struct {
	S      Sched
	Proj   *Project
	Breaks []breakage
	Faults []Fault
	Damage []damage
	DFile  int
	Times  int
	JSON   bool
	Chunk  int
	Conc   int
	Wide   int // an import graph with so many layers of diamonds on top
}

func genC05(r *rand.Rand, tier string) any {
	o := genOpts{MaxFiles: 6, MaxDecls: 5, Big: true}
	b := &c05Body{S: genBusySched(r), Proj: GenProject(r, o), Times: 1 + r.IntN(3), Conc: 1 + r.IntN(3)*r.IntN(2)}
	n := len(b.Proj.Files)
	switch r.IntN(6) {
	case 0:
	case 1, 2:
		b.Breaks = genBreaks(r, n, 1+r.IntN(2), breakKinds)
	case 3:
		b.Faults = genReadFaults(r, b.Proj.paths(), false)
	default:
		b.DFile = r.IntN(n)
		size := len(b.Proj.Render(b.DFile))
		for i := 0; i <= r.IntN(2); i++ {
			b.Damage = append(b.Damage, damage{Kind: pick(r, []string{"truncate", "zero", "garble", "syntax", "syntax", "drop", "dup", "again", "again"}), At: r.IntN(size + 1), Len: 1 + r.IntN(30), Seed: r.Uint64()})
		}
	}
	b.JSON = r.IntN(10) == 0
	if r.IntN(3) == 0 {
		b.Chunk = 1 + r.IntN(64)
	}
	if r.IntN(25) == 0 { // a process that loads over and over: what each load keeps adds up
		b.Proj = GenProject(r, genOpts{MaxFiles: 2, MaxDecls: 2})
		b.Times, b.Conc, b.DFile, b.S.Pause = 100+r.IntN(300), 1, 0, 0
		b.Breaks, b.Chunk, b.S.Yield, b.S.SysGap = nil, 0, 0, 0
		for i := range b.Proj.Files {
			b.Proj.Files[i].Pad = 0
		}
		for i := range b.Faults {
			b.Faults[i].Sticky = b.Faults[i].Kind != "short" && b.Faults[i].Kind != "stall" && b.Faults[i].Kind != "EINTR"
		}
		if r.IntN(2) == 0 {
			b.Breaks = genBreaks(r, len(b.Proj.Files), 1, breakKinds)
		}
		return b
	}
	if r.IntN(6) == 0 {
		b.Wide = 2 + r.IntN(14)
		if r.IntN(4) == 0 {
			b.Wide = 20 + r.IntN(20)
		}
	}
	return b
}

func execC05(bb any, res *Result) {
	b := bb.(*c05Body)
	b.Proj.sanitize()
	n := len(b.Proj.Files)
	b.Breaks = clampBreaks(b.Breaks, n)
	if b.DFile >= n {
		b.DFile = 0
	}
	res.Note = fmt.Sprintf("%s breakages %v damage %v wide %d", b.Proj.note(), b.Breaks, b.Damage, b.Wide)
	w := &World{S: b.S, ReadChunk: b.Chunk}
	root := b.Proj.Files[0].Path
	opens := map[string]int{}
	w.OnSys = func(p *Proc, class, name string) {
		if class == "open" {
			opens[name]++
		}
	}
	times := max(1, b.Times)
	conc := max(1, b.Conc)
	total := 0
	var errs []string
	leak, open := 0, []string(nil)
	indeg := map[string]int{}
	out := RunWorld(w, func(w *World) {
		fs := b.Proj.writeBroken(w, b.Breaks)
		if len(b.Damage) > 0 {
			text, _ := b.Proj.brokenText(b.DFile, b.Breaks)
			for _, d := range b.Damage {
				text = applyDamage(text, d, "")
			}
			w.WriteFile(b.Proj.Files[b.DFile].Path, text)
		}
		if b.JSON {
			root = "/work/schema.json"
			text := b.Proj.Flatten(0).RenderJSON()
			for _, d := range b.Damage {
				text = applyDamage(text, d, "")
			}
			w.WriteFile(root, text)
		}
		if b.Wide > 0 && !b.JSON {
			// Layers of two files that both import both files of the next layer: the number of import paths doubles with each layer.
			for i := 0; i < b.Wide; i++ {
				for _, side := range []string{"l", "r"} {
					t := "webrpc = v1\n\nimport\n"
					if i+1 < b.Wide {
						t += fmt.Sprintf("  - l%d.ridl\n  - r%d.ridl\n", i+1, i+1)
					} else {
						t += "  - ../" + root[1:] + "\n"
					}
					w.WriteFile(fmt.Sprintf("/wide/%s%d.ridl", side, i), t)
				}
			}
			w.WriteFile("/wide/root.ridl", "webrpc = v1\nname = wide\nversion = v1.0.0\n\nimport\n  - l0.ridl\n  - r0.ridl\n")
			root = "/wide/root.ridl"
		}
		w.Faults = append(fs, faultPtrs(b.Faults)...)
		for _, d := range []string{"/work", "/srv", "/wide", "/store"} {
			for _, f := range w.List(d) {
				s, _ := w.ReadFile(f)
				total += len(s)
				indeg[strings.TrimPrefix(f, "/")] = strings.Count(s, "import") + strings.Count(s, "\n  - ")
			}
		}
		w.Budget = uint64(times*conc) * stepBound(total, n+2*b.Wide)
		dstrt.SetTick(w.Budget, b.S.Yield)
		var p *Proc
		p = w.Spawn("load", 0, func() {
			for i := 0; i < times; i++ {
				var wg sync.WaitGroup
				for k := 0; k < conc; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						l := load(root)
						errs = append(errs, l.Err)
					}()
				}
				wg.Wait()
				w.settle()
				if k := dstrt.Live(p.ID) - 1; k > leak {
					leak = k
				}
				open = append(open, p.OpenFDs()...)
			}
		})
		endsWell(res, w, p, time.Hour)
	})
	res.add(w, out)
	if res.Violation != "" {
		return
	}
	if leak > 0 {
		res.Fail("leak", "%d goroutines remain after %d loads had returned (errors %q)", leak, times*conc, errs)
	}
	if len(open) > 0 {
		res.Fail("leak", "files remain open after the loads returned: %v", open)
	}
	files := len(w.List("/work")) + len(w.List("/srv")) + len(w.List("/wide")) + len(w.List("/store"))
	for name, k := range opens {
		if k > times*conc*(files+4) {
			res.Fail("rereads", "%s was opened %d times in %d loads of a project of %d files", name, k, times*conc, files)
		}
	}
	for _, e := range errs {
		res.Count(map[bool]string{true: "loads_ok", false: "loads_failed"}[e == ""], 1)
	}
	res.NoteState(fmt.Sprint(errs, b.Wide))
}

// ---- C06 ----

type c06Body struct {
	A, B    Sched
	Proj    *Project
	Breaks  []breakage
	JSON    bool
	Targets []string
	Preload int // loads of other roots before, in the second run
	Offset  time.Duration
	CLI     bool
	Slot    int
	Opts    int // number of template options
	Old     bool
	Conc    bool
	Work    bool   `json:",omitempty"` // what comes before also generates, from templates that change later
	Filter  int    `json:",omitempty"` // bits: services by name, tree shake, only or without annotated methods
	Pick    uint64 `json:",omitempty"`
	Reuse   int    `json:",omitempty"` // the second run generates from schemas that were used before: bit 2 their owner changes the version in between
	Env     bool   `json:",omitempty"` // the second run has another working directory and environment
}

// elsewhere is an environment that says nothing about the schema.
var elsewhere = map[string]string{"TZ": "Asia/Tokyo", "LANG": "de_DE.UTF-8", "LC_ALL": "C", "HOME": "/srv", "USER": "app0", "PWD": "/srv/app0", "TMPDIR": "/srv", "COLUMNS": "20", "NO_COLOR": "1", "CI": "true", "DEBUG": "1", "SOURCE_DATE_EPOCH": "1"}

// services draws service names of the schema, in the order the seed gives.
func (b *c06Body) services() []string {
	var l []string
	r := newRand(b.Pick)
	for _, d := range b.Proj.Flatten(0).Services {
		if r.IntN(4) > 0 {
			l = append(l, d.Name)
		}
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

// filter applies the service and method filters of the library.
func (b *c06Body) filter(s *schema.WebRPCSchema) *schema.WebRPCSchema {
	if sv := b.services(); b.Filter&1 != 0 && len(sv) > 0 {
		if b.Filter&2 != 0 {
			s = schema.MethodTreeShake(s, sv)
		}
		s = schema.MatchServices(s, sv)
	}
	switch b.Filter >> 2 & 3 {
	case 1:
		s = schema.IgnoreMethodsWithAnnotations(s, map[string]string{"internal": "", "auth": "admin"})
	case 2:
		s = schema.MatchMethodsWithAnnotations(s, map[string]string{"auth": ""})
	}
	return s
}

func (b *c06Body) filterArgs() []string {
	var a []string
	if sv := b.services(); b.Filter&1 != 0 && len(sv) > 0 {
		a = append(a, "-service="+strings.Join(sv, ","))
		if b.Filter&2 != 0 {
			a = append(a, "-methodTreeShake")
		}
	}
	switch b.Filter >> 2 & 3 {
	case 1:
		a = append(a, "-ignore=@internal,@auth:admin")
	case 2:
		a = append(a, "-match=@auth")
	}
	return a
}

var genTargets = []string{"json", "golang", "typescript", "javascript", "kotlin", "dart", "openapi", "/work/tmpl", "/work/tmpl", "/work/tmpl"}

func genC06(r *rand.Rand, tier string) any {
	b := &c06Body{A: genBusySched(r), B: genBusySched(r), Offset: time.Duration(r.Int64N(int64(50*365*24*time.Hour))) - 20*365*24*time.Hour, CLI: r.IntN(2) == 0, Slot: r.IntN(3), Opts: r.IntN(5), Conc: r.IntN(3) == 0}
	b.Proj = GenProject(r, genOpts{MaxFiles: 5, MaxDecls: 5, Codegen: r.IntN(2) == 0})
	if r.IntN(3) == 0 {
		b.Breaks = genBreaks(r, len(b.Proj.Files), 1+r.IntN(2), breakKinds)
		if r.IntN(2) == 0 { // several things wrong in one place
			b.Breaks = genBreaks(r, len(b.Proj.Files), 2+r.IntN(4), breakKinds[len(breakKinds)-1:])
			for i := range b.Breaks {
				b.Breaks[i].File = b.Breaks[0].File
			}
		}
	}
	b.JSON = r.IntN(5) == 0
	for i := 0; i < 2; i++ {
		b.Targets = append(b.Targets, pick(r, genTargets))
	}
	if len(b.Proj.Files) <= 2 && len(b.Proj.Files[0].Decls) <= 3 && r.IntN(2) == 0 {
		b.Targets[r.IntN(2)] = "debug" // prints everything reachable, which is a lot
	}
	b.Preload = r.IntN(4)
	b.Work = b.Preload > 0 && r.IntN(3) == 0
	if r.IntN(2) == 0 {
		b.Filter, b.Pick = r.IntN(16), r.Uint64()
	}
	b.Env = r.IntN(3) == 0
	if r.IntN(2) == 0 {
		b.Reuse = r.IntN(4)
	}
	return b
}

// richTemplates exercise the template functions on every part of the schema.
var richTemplates = map[string]string{
	"main.go.tmpl": `{{- define "main" -}}
// {{ .WebrpcHeader }} {{ .WebrpcTarget }} {{ .CodeGen }} {{ .CodeGenName }} {{ .CodeGenVersion }} {{ .WebrpcGenVersion }}
// {{ .SchemaName }} {{ .SchemaVersion }} {{ .SchemaHash }} {{ .BasePath }}
{{ template "types" . }}
{{ template "services" dict "Services" .Services "Types" .Types }}
{{- range $k, $v := .Opts }}
opt {{ $k }} = {{ $v }}
{{- end }}
{{- range $_, $e := .WebrpcErrors }}
builtin {{ $e.Code }} {{ $e.Name }}
{{- end }}
{{- range $_, $e := .Errors }}
error {{ $e.Code }} {{ $e.Name | snakeCase }} {{ $e.Message }}
{{- end }}
big {{ SchemaUsesBigInts .WebRPCSchema }}
{{- range $k, $v := SchemaBigIntFieldsByType .WebRPCSchema }}
big {{ $k }} {{ $v }}
{{- end }}
{{ $d := dict "z" "1" "y" "2" "x" "3" "w" "4" "v" "5" -}}
dict {{ join (array $d "tail") "|" }}
{{ $e := dict "q" "1" "p" "2" -}}
sorted {{ range $_, $x := sort (array $d $e "mid" "a") }}{{ printf "%v" $x }};{{ end }}
{{ set $d "z" "changed" }}{{ set $d "n" (len .Types) }}z {{ get $d "z" }} {{ exists $d "q" }} {{ exists $d "n" }} {{ get $d "n" }}
has {{ hasField . "BasePath" }} {{ hasField . "Nothing" }} {{ hasField .WebRPCSchema "Types" }}
first {{ first (array "a" "b") }} last {{ last (split "," "x,y,z") }} at {{ lastIndex (split "," "x,y,z") }} {{ in "b" "a" "b" }} {{ in "c" "a" "b" }}
{{ coalesce "" .SchemaName "none" }} {{ default .BasePath "nowhere" }} {{ isString .BasePath }} {{ isString 5 }} {{ minVersion .WebrpcGenVersion "v0.7.0" }}
{{- $l := array "0" }}{{ range $_, $t := .Types }}{{ $l = append $l $t.Name }}{{ end }}
names {{ join $l "," }} sorted {{ join (sort $l) "," }} again {{ join $l "," }}
text {{ replaceAll "a-b-c" "-" "+" }} {{ trimPrefix "v1" "v" }} {{ trimSuffix "x.go" ".go" }} {{ hasPrefix "abc" "ab" }} {{ hasSuffix "abc" "ab" }}
who {{ template "who" . }}
stderr {{ stderrPrintf "%d types\n" (len .Types) }}{{ stderrPrint .SchemaName }}
END
{{ end -}}
`,
	"types.go.tmpl": `{{- define "who" }}types{{ end -}}
{{- define "types" -}}
{{- range $_, $t := .Types }}
{{- if isEnumType $t }}
enum {{ $t.Name | camelCase }} {{ $t.Type }}
{{- range $_, $f := $t.Fields }}
  {{ $f.Name | pascalCase }} {{ $f.Name | toLower | firstLetterToUpper }} = {{ $f.Value }} {{ join $f.Comments "/" }}
{{- end }}
{{- else if isStructType $t }}
struct {{ $t.Name }} {{ join $t.Comments "/" }}
{{- range $_, $f := $t.Fields }}
  {{ $f.Name | kebabCase }} {{ $f.Name | camelCase }} {{ $f.Name | pascalCase | firstWordToLower }} {{ $f.Optional }} {{ template "type" dict "Type" $f.Type }}
{{- range $_, $m := $f.Meta }}{{ range $k, $v := $m }} +{{ $k }}={{ $v }}{{ end }}{{ end }}
{{- end }}
{{- else }}
alias {{ $t.Name }} {{ isAliasType $t }} = {{ template "type" dict "Type" $t.Type }}
{{- end }}
{{- end }}
{{- end -}}
{{- define "type" -}}
{{- if isMapType .Type -}}MAP[{{ mapKeyType .Type }}->{{ mapValueType .Type }}]
{{- else if isListType .Type -}}LIST[{{ template "type" dict "Type" (listElemType .Type) }}]
{{- else if isCoreType .Type -}}core:{{ .Type }}
{{- else -}}ref:{{ .Type }}
{{- end -}}
{{- end -}}
`,
	"services.go.tmpl": `{{- define "who" }}services, of which there are others{{ end -}}
{{- define "services" -}}
{{- range $_, $s := .Services }}
service {{ $s.Name | firstLetterToLower }}
{{- range $i, $m := $s.Methods }}
  {{ $i }} {{ $m.Name | toUpper }} in={{ len $m.Inputs }} out={{ len $m.Outputs }} stream={{ $m.StreamOutput }}
{{- range $_, $in := $m.Inputs }} {{ $in.Name }}:{{ $in.Type }}{{ ternary $in.Optional "?" "" }}{{ end }}
{{- range $_, $o := $m.Outputs }} -> {{ $o.Name }}:{{ $o.Type }}{{ end }}
{{- range $k, $a := $m.Annotations }} @{{ $k }}:{{ $a.Value }}{{ end }}
{{- range $_, $e := $m.Errors }} !{{ $e }}{{ end }}
{{- end }}
{{- end }}
{{- end -}}
`,
}

func writeTemplates(w *World, dir string) { writeTemplatesBy(w, dir, strings.NewReplacer()) }

func writeTemplatesBy(w *World, dir string, by *strings.Replacer) {
	var names []string
	for k := range richTemplates {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		w.WriteFile(dir+"/"+k, by.Replace(richTemplates[k]))
	}
}

func genOptions(target string, n int) map[string]interface{} {
	o := map[string]interface{}{}
	if target == "golang" || target == "typescript" {
		o["pkg"] = "proto"
	}
	switch target {
	case "golang", "typescript", "javascript", "kotlin", "dart", "openapi":
		if target == "javascript" || target == "typescript" {
			o["client"] = "true"
		}
		return o
	}
	for i := 0; i < n; i++ {
		o[fmt.Sprintf("opt%d", (i*7)%11)] = fmt.Sprint(i)
	}
	return o
}

func generate(s *schema.WebRPCSchema, target string, nopts int) string {
	defer func() {
		if r := recover(); r != nil {
			panic(fmt.Sprintf("generating %s: %v", target, r))
		}
	}()
	out, err := gen.Generate(s, target, &gen.Config{Format: true, TemplateOptions: genOptions(target, nopts)})
	if err != nil {
		return "error: " + err.Error()
	}
	fe := ""
	if out.FormatErr != nil {
		fe = out.FormatErr.Error()
	}
	return fmt.Sprintf("%s|%v|%s|%s", out.TmplVersion, out.IsLocal, fe, out.Code)
}

func execC06(bb any, res *Result) {
	b := bb.(*c06Body)
	b.Proj.sanitize()
	n := len(b.Proj.Files)
	b.Breaks = clampBreaks(b.Breaks, n)
	res.Note = fmt.Sprintf("%s breakages %v targets %v json %v", b.Proj.note(), b.Breaks, b.Targets, b.JSON)
	root := b.Proj.Files[0].Path
	run := func(s Sched, second bool) map[string]string {
		got := map[string]string{}
		w := &World{S: s, Budget: 1000_000_000}
		cwd := "/work"
		if second && b.Env {
			cwd = "/srv/" + b.Proj.Files[0].Name
			for k, v := range elsewhere {
				old, had := os.LookupEnv(k)
				os.Setenv(k, v)
				defer func() {
					if os.Unsetenv(k); had {
						os.Setenv(k, old)
					}
				}()
			}
		}
		out := RunWorld(w, func(w *World) {
			w.Faults = b.Proj.writeBroken(w, b.Breaks)
			writeTemplates(w, "/work/tmpl")
			if b.JSON {
				root = "/work/schema.json"
				w.WriteFile(root, b.Proj.Flatten(0).RenderJSON())
			}
			if second {
				w.JumpClock(b.Offset)
				w.Stats["clock.jump"]++
				if b.Env {
					w.Stats["event.other_environment"]++
				}
			}
			if second && b.Work {
				writeTemplatesBy(w, "/work/tmpl", strings.NewReplacer("END", "OLD", "enum ", "former "))
			}
			p := w.Spawn("lib", 0, func() {
				if second {
					for i := 0; i < b.Preload; i++ {
						l := load(b.Proj.Files[(i+1)%n].Path)
						l.detail()
						if l.Err == "" && i%2 == 1 {
							generate(l.S, "json", 0)
						}
						if l.Err == "" && b.Work {
							for _, t := range b.Targets {
								generate(b.filter(l.S), t, b.Opts+i+1)
							}
						}
					}
				}
				if second && b.Work {
					writeTemplates(w, "/work/tmpl")
				}
				l := load(root)
				l.detail()
				got["load"] = l.key()
				if l.Err == "" {
					var wg sync.WaitGroup
					res := make([]string, len(b.Targets))
					for i, t := range b.Targets {
						if second && b.Conc {
							wg.Add(1)
							l2 := load(root)
							if b.Reuse&2 != 0 {
								l2.S.SchemaVersion += "-next"
							}
							go func() {
								defer wg.Done()
								res[i] = generate(b.filter(l2.S), t, b.Opts)
							}()
						} else {
							s := load(root).S
							if second && b.Reuse&1 != 0 {
								generate(s, b.Targets[len(b.Targets)-1-i], b.Opts+1)
								generate(s, t, b.Opts)
							}
							if b.Reuse&2 != 0 {
								s.SchemaVersion += "-next"
							}
							res[i] = generate(b.filter(s), t, b.Opts)
						}
					}
					wg.Wait()
					for i, t := range b.Targets {
						got["gen "+t] = res[i]
					}
				}
			})
			if !endsWell(res, w, p, time.Hour) {
				return
			}
			if b.CLI && len(b.Targets) > 0 {
				slot := 0
				if second {
					slot = b.Slot % 3
				}
				args := []string{"-schema=" + root, "-target=" + b.Targets[0], "-out=/work/out/gen.txt"}
				o := genOptions(b.Targets[0], b.Opts)
				var ks []string
				for k := range o {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					args = append(args, fmt.Sprintf("-%s=%v", k, o[k]))
				}
				args = append(args, b.filterArgs()...)
				w.MkdirAll(cwd)
				q := w.SpawnMain(slot, "webrpc-gen", args...)
				q.Cwd = cwd
				if !w.WaitAll(time.Hour, q) {
					res.Fail("hang", "webrpc-gen does not end")
					return
				}
				code, _ := w.ReadFile("/work/out/gen.txt")
				got["cli"] = fmt.Sprintf("exit %d panic %q\n%s\n%s\n%s", q.Exit, q.Panic, q.Stdout, q.Stderr, code)
			}
		})
		res.add(w, out)
		return got
	}
	a := run(b.A, false)
	if res.Violation != "" {
		return
	}
	c := run(b.B, true)
	if res.Violation != "" {
		return
	}
	var keys []string
	for k := range a {
		keys = append(keys, k)
	}
	for k := range c {
		if _, ok := a[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if a[k] != c[k] {
			res.Fail("nondeterministic", "%s differs between two runs over the same files: %s", k, diffText(a[k], c[k]))
		}
		res.Count("results_compared", 1)
	}
	res.NoteState(fmt.Sprint(len(a["load"]), b.Targets, strings.HasPrefix(a["load"], "error")))
}

// ---- C07 ----

type c07Event struct {
	At   int
	File int
	On   int // index of the state of back edges that becomes current
}

type c07Body struct {
	S      Sched
	Proj   *Project
	Back   []breakage
	Events []c07Event // toggles the back edge of a file while the load runs
	Start  bool       // back edges present from the start
	Spell  int
	Extra  []breakage // another failure in the tree
}

func genC07(r *rand.Rand, tier string) any {
	m := 6
	if tier == "thorough" {
		m = 12
	}
	b := &c07Body{S: genBusySched(r), Proj: GenProject(r, genOpts{MaxFiles: m, MaxDecls: 3}), Spell: r.IntN(64)}
	n := len(b.Proj.Files)
	if r.IntN(3) > 0 {
		b.Back = genBreaks(r, n, 1+r.IntN(2), []string{"back"})
		b.Start = r.IntN(4) > 0
	}
	if len(b.Back) > 0 && r.IntN(2) == 0 {
		for i := 0; i <= r.IntN(6); i++ {
			b.Events = append(b.Events, c07Event{At: r.IntN(8*n + 6), File: pick(r, b.Back).File, On: r.IntN(2)})
		}
		sort.SliceStable(b.Events, func(i, j int) bool { return b.Events[i].At < b.Events[j].At })
	}
	return b
}

func execC07(bb any, res *Result) {
	b := bb.(*c07Body)
	b.Proj.sanitize()
	n := len(b.Proj.Files)
	b.Back = clampBreaks(b.Back, n)
	for i := range b.Proj.Files {
		if b.Proj.Files[i].Version == "" {
			b.Proj.Files[i].Version = "v0.1.0" // a back edge may bring services into any file
		}
	}
	res.Note = fmt.Sprintf("%s back edges %v events %v", b.Proj.note(), b.Back, b.Events)
	w := &World{S: b.S, Budget: 200_000_000}
	on := map[int]bool{}
	version := func(i int) *Project {
		q := &Project{Files: append([]PFile(nil), b.Proj.Files...)}
		for k, e := range b.Back {
			if e.File == i && on[i] {
				q.Files[i] = cloneFile(q.Files[i])
				im := PImport{File: e.Arg, Spell: b.Spell + k, List: (b.Spell+k)%3 == 0}
				if (b.Spell+k)%5 == 0 {
					q.Files[i].Imports = append([]PImport{im}, q.Files[i].Imports...)
				} else {
					q.Files[i].Imports = append(q.Files[i].Imports, im)
				}
			}
		}
		return q
	}
	write := func(i int) { w.WriteFile(b.Proj.Files[i].Path, version(i).Render(i)) }
	for _, e := range b.Back {
		on[e.File] = b.Start
	}
	opens := map[string]int{}
	base, next, active, changed := 0, 0, false, 0
	ever := map[int]bool{}
	for f, x := range on {
		if x {
			ever[f] = true
		}
	}
	w.OnSys = func(p *Proc, class, name string) {
		if !active {
			return
		}
		if class == "open" {
			opens["/"+strings.TrimPrefix(name, "/")]++
		}
		for next < len(b.Events) && w.Sys-base > b.Events[next].At {
			e := b.Events[next]
			next++
			on[e.File] = e.On == 1
			if on[e.File] {
				ever[e.File] = true
			}
			if e.File < n {
				write(e.File)
				changed++
				w.Stats["event.replace"]++
			}
		}
	}
	var l *loaded
	out := RunWorld(w, func(w *World) {
		for i := range b.Proj.Files {
			write(i)
		}
		b.Proj.link(w)
		p := w.Spawn("load", 0, func() {
			base = w.Sys
			active = true
			l = load(b.Proj.Files[0].Path)
			active = false
		})
		endsWell(res, w, p, time.Hour)
	})
	res.add(w, out)
	if res.Violation != "" || l == nil {
		return
	}
	var cur []breakage
	var union []breakage
	for _, e := range b.Back {
		if b.Start {
			cur = append(cur, e)
		}
		if ever[e.File] {
			union = append(union, e)
		}
	}
	isCirc := strings.Contains(strings.ToLower(l.Err), "circular")
	if changed == 0 {
		if cyclic(b.Proj.edges(cur), 0) {
			if l.Err == "" {
				res.Fail("cycle-accepted", "the import graph has a cycle, yet the load succeeded")
			} else if !isCirc {
				res.Fail("cycle-unreported", "the import graph has a cycle, but the error does not say so: %s", l.Err)
			}
		} else if l.Err != "" {
			res.Fail("false-cycle", "the import graph has no cycle and every file is fine, yet the load fails: %s", l.Err)
		} else if c := c07Model(b.Proj, version).Canon(); c != l.Canon {
			res.Fail("wrong-schema", "the load of an acyclic graph gives another schema: %s", diffText(c, l.Canon))
		}
	} else if l.Err != "" {
		if !isCirc {
			res.Fail("false-error", "files only gained and lost imports during the load, every version is fine, yet: %s", l.Err)
		} else if !cyclic(b.Proj.edges(union), 0) {
			res.Fail("false-cycle", "no choice of versions has a cycle, yet: %s", l.Err)
		}
	}
	e := b.Proj.edges(b.Back)
	indeg := make([]int, n)
	for i := range e {
		for _, j := range e[i] {
			indeg[j]++
		}
	}
	for i := range b.Proj.Files {
		if k := opens[b.Proj.Files[i].Path]; k > indeg[i]+2 {
			res.Fail("rereads", "%s was opened %d times by one load; %d imports lead to it", b.Proj.Files[i].Path, k, indeg[i])
		}
	}
	res.Count(map[bool]string{true: "cycles_reported", false: "no_cycle"}[isCirc], 1)
	res.NoteState(fmt.Sprint(isCirc, changed, n, len(b.Back), l.Err))
}

// c07Model flattens the project in the version of every file that is current.
func c07Model(p *Project, version func(i int) *Project) *flatSchema {
	q := &Project{Files: append([]PFile(nil), p.Files...)}
	for i := range q.Files {
		q.Files[i] = version(i).Files[i]
	}
	return q.Flatten(0)
}

// ---- C08 ----

type c08Body struct {
	S     Sched
	Proj  *Project
	Break breakage
	Fault *Fault
	Warm  bool
	Rel   bool
	FS    bool `json:",omitempty"`
	Torn  int  `json:",omitempty"` // bytes that can be read before the fault
}

func genC08(r *rand.Rand, tier string) any {
	b := &c08Body{S: genBusySched(r), Proj: GenProject(r, genOpts{MaxFiles: 7, MaxDecls: 4}), Warm: r.IntN(4) == 0, Rel: r.IntN(4) == 0}
	n := len(b.Proj.Files)
	b.Break = genBreaks(r, n, 1, []string{"missing", "eacces", "eio", "syntax", "syntax", "syntax", "unresolved", "dup", "version", "emethod", "empty", "sem", "sem", "sem", "fault", "clash"})[0]
	if b.Break.Kind == "fault" {
		b.Fault = &Fault{Class: pick(r, []string{"open", "read", "any"}), Nth: 1 + r.IntN(3), Kind: pick(r, hardErrors)}
		if r.IntN(2) == 0 {
			b.Fault.Class, b.Fault.Nth, b.Torn = "read", 2, 1+r.IntN(len(b.Proj.Render(b.Break.File))+1)
		}
	}
	b.FS = r.IntN(4) == 0
	return b
}

// clash makes two files declare the same thing and tells in which file that first shows, -1 if in none, and what the error has to name.
func (p *Project) clash(k, arg int) (int, string) {
	n := len(p.Files)
	r := newRand(uint64(arg)*1000 + uint64(k))
	other := (k + 1 + r.IntN(max(1, n-1))) % n
	kind := pick(r, []string{"struct", "enum", "type", "error", "code", "service"})
	want := "Clash0"
	for i, f := range []int{k, other} {
		d := PDecl{Kind: kind, Name: "Clash0"}
		if i == 1 && r.IntN(2) == 0 {
			d.Name = "CLASH0"
		}
		switch kind {
		case "struct":
			d.Fields = []PField{{Name: fmt.Sprintf("a%d", i), Type: "string"}}
		case "enum":
			d.Type, d.Fields = "uint32", []PField{{Name: fmt.Sprintf("A%d", i)}}
		case "type":
			d.Type = "string"
		case "error":
			d.Code, d.Msg = 990+i, "m"
		case "code":
			d.Kind, d.Code, d.Msg, want = "error", 990, "m", "990"
			d.Name = fmt.Sprintf("Clash%d", i)
		case "service":
			d.Methods = []PMethod{{Name: fmt.Sprintf("Do%d", i)}}
		}
		at := r.IntN(len(p.Files[f].Decls) + 1)
		p.Files[f].Decls = append(p.Files[f].Decls[:at:at], append([]PDecl{d}, p.Files[f].Decls[at:]...)...)
	}
	for i := range p.Files {
		if p.Files[i].Version == "" {
			p.Files[i].Version = "v0.1.0"
		}
		for j := range p.Files[i].Imports {
			if im := &p.Files[i].Imports[j]; len(im.Members) > 0 && r.IntN(3) > 0 {
				for _, name := range []string{"Clash0", "CLASH0", "Clash1"} {
					if p.Flatten(im.File).find(name) != nil {
						im.Members = append(im.Members, name)
					}
				}
			}
		}
	}
	done := map[int]bool{}
	var walk func(i int) int
	walk = func(i int) int {
		if done[i] {
			return -1
		}
		done[i] = true
		for _, im := range p.Files[i].Imports {
			if x := walk(im.File); x >= 0 {
				return x
			}
		}
		names, s := map[string]bool{}, p.Flatten(i)
		for _, l := range [][]*PDecl{s.Types, s.Errors, s.Services} {
			for _, d := range l {
				for _, key := range []string{d.Kind + strings.ToLower(d.Name), fmt.Sprint("code", d.Code)} {
					if key == "code0" {
						continue
					}
					if names[key] {
						return i
					}
					names[key] = true
				}
			}
		}
		return -1
	}
	return walk(0), want
}

func execC08(bb any, res *Result) {
	b := bb.(*c08Body)
	b.Proj.sanitize()
	n := len(b.Proj.Files)
	k := b.Break.File
	if k >= n {
		k = n - 1
		b.Break.File = k
	}
	if b.Proj.Files[k].Version == "" {
		b.Proj.Files[k].Version = "v0.1.0"
	}
	for i := range b.Proj.Files {
		if b.Break.Kind == "emethod" && b.Proj.Files[i].Version == "" {
			b.Proj.Files[i].Version = "v0.1.0" // the breakage brings a service into every file above
		}
	}
	proj := b.Proj
	clash := ""
	if b.Break.Kind == "clash" {
		proj = b.Proj.clone()
		k, clash = proj.clash(k, b.Break.Arg)
	}
	res.Note = fmt.Sprintf("%s breakage %v fault %v", proj.note(), b.Break, b.Fault)
	w := &World{S: b.S}
	bs := []breakage{b.Break}
	var l *loaded
	var warm *loaded
	var flt *Fault
	arg := proj.Files[0].Path
	if b.Rel {
		arg = relTo("/work", arg)
	}
	arg = viaFS(arg, b.FS)
	out := RunWorld(w, func(w *World) {
		p := w.Spawn("load", 0, func() {
			if b.Warm {
				b.Proj.Write(w)
				warm = load(arg)
			}
			w.Faults = proj.writeBroken(w, bs)
			if b.Fault != nil {
				f := *b.Fault
				f.Path = proj.Files[k].Path
				flt = &f
				w.Faults = append(w.Faults, flt)
				if b.Torn > 0 {
					w.Faults = append(w.Faults, &Fault{Class: "read", Path: f.Path, Nth: 1, Kind: "short", Arg: int64(b.Torn)})
				}
			}
			l = load(arg)
		})
		endsWell(res, w, p, time.Hour)
	})
	res.add(w, out)
	if res.Violation != "" || l == nil {
		return
	}
	if warm != nil && warm.Err != "" {
		res.Fail("clean-load-fails", "a load without any fault failed: %s", warm.Err)
	}
	e := proj.edges(nil)
	res.NoteState(fmt.Sprint(b.Break.Kind, k, n, l.Err))
	res.Count("broken_by_"+b.Break.Kind, 1)
	if k < 0 {
		if l.Err != "" {
			res.Fail("foreign-failure", "nothing is wrong in any file or between the files, yet the load fails: %s", l.Err)
		}
		return
	}
	if !reach(e, 0)[k] {
		if l.Err != "" {
			res.Fail("foreign-failure", "%s is not part of the import tree, yet the load fails: %s", proj.Files[k].Path, l.Err)
		}
		return
	}
	if b.Break.Kind == "fault" {
		if l.Err == "" {
			return
		}
		if flt != nil && !flt.Fired() {
			res.Fail("clean-load-fails", "no fault was injected, yet the load fails: %s", l.Err)
			return
		}
	}
	if l.Err == "" {
		res.Fail("failure-ignored", "%s of %s did not make the load fail", b.Break.Kind, proj.Files[k].Path)
		return
	}
	var want []string
	switch b.Break.Kind {
	case "missing":
		want = []string{"no such file"}
	case "eacces":
		want = []string{"permission denied"}
	case "eio":
		want = []string{"input/output error"}
	case "unresolved":
		want = []string{"Missing0"}
	case "emethod":
		want = []string{"Missing1"}
	case "sem":
		want = []string{semCases[b.Break.Arg%len(semCases)][1]}
	case "clash":
		want = []string{clash}
	case "dup":
		want = []string{"Dup0"}
	case "version":
		want = []string{"v2"}
	case "empty":
		want = []string{"version"}
	case "syntax":
		_, line := proj.brokenText(k, bs)
		if line > 0 {
			re := regexp.MustCompile(fmt.Sprintf(`(^|[^0-9])%d:[0-9]+`, line))
			if !re.MatchString(l.Err) {
				res.Fail("line", "the syntax error stands in line %d of %s, the error does not say so: %s", line, proj.Files[k].Path, l.Err)
			}
		}
	case "fault":
		want = []string{map[string]string{"EIO": "input/output error", "ENOENT": "no such file", "EACCES": "permission denied", "EMFILE": "too many open files",
			"ESTALE": "stale", "ENOMEM": "cannot allocate memory"}[b.Fault.Kind]}
	}
	for _, x := range want {
		if !strings.Contains(strings.ToLower(l.Err), strings.ToLower(x)) {
			res.Fail("cause", "the cause (%s: %q) is missing from the error: %s", b.Break.Kind, x, l.Err)
		}
	}
	if k == 0 {
		return
	}
	// The files the text names, in order.
	type hit struct{ pos, file, end int }
	var hits []hit
	for i := range proj.Files {
		pa := proj.Files[i].Path
		for from := 0; ; {
			j := strings.Index(l.Err[from:], pa)
			if j < 0 {
				break
			}
			hits = append(hits, hit{from + j, i, from + j + len(pa)})
			from += j + 1
		}
	}
	sort.Slice(hits, func(i, j int) bool { return hits[i].pos < hits[j].pos })
	var chain []int
	for _, h := range hits {
		inside := false // in a longer name
		for _, g := range hits {
			inside = inside || g != h && g.pos <= h.pos && h.end <= g.end
		}
		if inside {
			continue
		}
		// Only the trace: repetitions of the same file in a row count once.
		if len(chain) > 0 && chain[len(chain)-1] == h.file {
			continue
		}
		chain = append(chain, h.file)
	}
	ok := len(chain) >= 2 && chain[0] == k && chain[len(chain)-1] == 0
	for i := 0; ok && i+1 < len(chain); i++ {
		edge := false
		for _, j := range e[chain[i+1]] {
			if j == chain[i] {
				edge = true
			}
		}
		ok = edge
	}
	if !ok {
		var names []string
		for _, c := range chain {
			names = append(names, proj.Files[c].Path)
		}
		res.Fail("chain", "%s failed; the files the error names %v are not an import path from it to the root, innermost first: %s", proj.Files[k].Path, names, l.Err)
	}
	res.Count("chains_checked", 1)
	res.Count("chain_length_total", len(chain))
}

// ---- C09 ----

type c09Use struct {
	Opts  int    `json:",omitempty"` // more than those of all uses
	Kind  string // json, hash, lookup, bigint, gen
	Arg   string
	Times int
	Delay int
}

type c09Body struct {
	S      Sched
	Proj   *Project
	JSON   bool
	NoBase bool
	Uses   []c09Use
	Opts   int
}

func genC09(r *rand.Rand, tier string) any {
	b := &c09Body{S: genBusySched(r), JSON: r.IntN(6) == 0, NoBase: r.IntN(3) == 0, Opts: r.IntN(4)}
	b.Proj = GenProject(r, genOpts{MaxFiles: 4, MaxDecls: 5, Codegen: r.IntN(3) > 0, NoBasePath: b.NoBase})
	k := 2 + r.IntN(4)
	if tier == "thorough" {
		k = 2 + r.IntN(8)
	}
	for i := 0; i < k; i++ {
		u := c09Use{Kind: pick(r, []string{"json", "hash", "lookup", "bigint", "gen", "gen", "gen", "validate"}), Times: 1 + r.IntN(3), Delay: r.IntN(3)}
		if u.Kind == "validate" {
			u.Kind = "gen" // validation rewrites the schema and is not a read-only use
		}
		if u.Kind == "gen" {
			u.Arg, u.Opts = pick(r, genTargets), r.IntN(4)
			if r.IntN(12) == 0 && len(b.Proj.Files) == 1 && len(b.Proj.Files[0].Decls) <= 2 {
				u.Arg = "debug"
			}
			u.Times = 1
		}
		b.Uses = append(b.Uses, u)
	}
	return b
}

func useSchema(s *schema.WebRPCSchema, u c09Use, names []string, nopts int) string {
	switch u.Kind {
	case "json":
		j, err := s.ToJSON()
		return fmt.Sprint(j, err)
	case "hash":
		j, err := s.SchemaHash()
		return fmt.Sprint(j, err)
	case "lookup":
		var b strings.Builder
		for _, n := range names {
			if t := s.GetTypeByName(n); t != nil {
				fmt.Fprintf(&b, "%s=%s %s %d;", n, t.Kind, t.Name, len(t.RequiredFields()))
			}
			if v := s.GetServiceByName(strings.ToUpper(n)); v != nil {
				fmt.Fprintf(&b, "%s=%s %d;", n, v.Name, len(v.Methods))
			}
		}
		return b.String()
	case "bigint":
		return fmt.Sprint(schema.SchemaUsesBigInts(s), schema.SchemaBigIntFieldsByType(s), schema.SchemaBigIntFieldsByType(s, true))
	case "gen":
		return generate(s, u.Arg, nopts)
	}
	return ""
}

func execC09(bb any, res *Result) {
	b := bb.(*c09Body)
	b.Proj.sanitize()
	if b.NoBase {
		for i := range b.Proj.Files {
			b.Proj.Files[i].Base = ""
		}
	}
	res.Note = fmt.Sprintf("%s uses %v", b.Proj.note(), b.Uses)
	w := &World{S: b.S, Budget: 1200_000_000}
	root := b.Proj.Files[0].Path
	var names []string
	for _, l := range [][]*PDecl{b.Proj.Flatten(0).Types, b.Proj.Flatten(0).Services} {
		for _, d := range l {
			names = append(names, d.Name)
		}
	}
	names = append(names, "Nowhere")
	solo := make([]string, len(b.Uses))
	got := make([][]string, len(b.Uses))
	var before, after loaded
	var loadErr string
	out := RunWorld(w, func(w *World) {
		b.Proj.Write(w)
		writeTemplates(w, "/work/tmpl")
		if b.JSON {
			root = "/work/schema.json"
			w.WriteFile(root, b.Proj.Flatten(0).RenderJSON())
		}
		// Each use alone, in a process of its own.
		for i, u := range b.Uses {
			p := w.Spawn("consumers", 0, func() {
				l := load(root)
				if l.Err != "" {
					loadErr = l.Err
					return
				}
				solo[i] = useSchema(l.S, u, names, b.Opts+u.Opts)
			})
			if !endsWell(res, w, p, time.Hour) || loadErr != "" {
				return
			}
		}
		p := w.Spawn("consumers", 0, func() {
			l := load(root)
			l.detail()
			before = *l
			var wg sync.WaitGroup
			for i, u := range b.Uses {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < u.Delay; k++ {
						dstrt.Yield()
					}
					for k := 0; k < max(1, u.Times); k++ {
						got[i] = append(got[i], useSchema(l.S, u, names, b.Opts+u.Opts))
					}
				}()
			}
			wg.Wait()
			after = loaded{S: l.S}
			after.detail()
			after.Canon = canonSchema(l.S, b.JSON)
		})
		endsWell(res, w, p, time.Hour)
	})
	res.add(w, out)
	if res.Violation != "" {
		return
	}
	if loadErr != "" {
		res.Fail("clean-load-fails", "a load without any fault failed: %s", loadErr)
		return
	}
	for i, u := range b.Uses {
		for _, g := range got[i] {
			if g != solo[i] {
				res.Fail("interference", "use %d (%s %s) of a shared schema gives another result than alone: %s", i, u.Kind, u.Arg, diffText(solo[i], g))
			}
			res.Count("uses_compared", 1)
			if strings.HasPrefix(g, "error: ") {
				res.Count("generations_failing_alone_too", 1)
			}
		}
	}
	if before.Canon != after.Canon || before.JSON != after.JSON || before.Hash != after.Hash {
		res.Fail("mutated", "using the schema changed it: %s", diffText(before.key(), after.key()))
	}
	res.NoteState(fmt.Sprint(out.SchedHash, len(b.Uses)))
}

func init() {
	register(&Scenario{Prop: "C04", Gen: genC04, New: func() any { return &c04Body{} }, Exec: execC04, Shrink: autoShrink, Race: true, Real: realLoad, Stub: stubLoad,
		Rule: "Several goroutines of one process load overlapping roots of a seeded project (some roots failing) under a seeded scheduler, slow and short reads; each result must equal that of the same load alone. Part of the runs use the race detector on the same schedules."})
	register(&Scenario{Prop: "C05", Gen: genC05, New: func() any { return &c05Body{} }, Exec: execC05, Shrink: autoShrink, Real: realLoad, Stub: stubLoad,
		Rule: "Loads that succeed, fail in each phase, meet damage, I/O errors or layers of diamond imports run under a step budget; afterwards the goroutines and open files of the process are counted, and the opens of each file."})
	register(&Scenario{Prop: "C06", Gen: genC06, New: func() any { return &c06Body{} }, Exec: execC06, Shrink: autoShrink, Real: realGen, Stub: stubGen,
		Rule: "The same load, generations and command line run in two simulated worlds that differ in scheduling, map iteration order, directory order, clock, previous work and process; all results are compared byte for byte."})
	register(&Scenario{Prop: "C07", Gen: genC07, New: func() any { return &c07Body{} }, Exec: execC07, Shrink: autoShrink, Real: realLoad, Stub: stubLoad,
		Rule: "Import graphs with and without back edges (spelled in various ways), sometimes with files replaced during the load; the oracle is the graph itself."})
	register(&Scenario{Prop: "C08", Gen: genC08, New: func() any { return &c08Body{} }, Exec: execC08, Shrink: autoShrink, Real: realLoad, Stub: stubLoad,
		Rule: "Exactly one file of a seeded import tree fails in a chosen way (storage error at a chosen call, syntax, resolution, validation); cause, line and the chain of importing files are looked up in the error text and compared with the import graph."})
	register(&Scenario{Prop: "C09", Gen: genC09, New: func() any { return &c09Body{} }, Exec: execC09, Shrink: autoShrink, Race: true, Real: realGen, Stub: stubGen,
		Rule: "One loaded schema is used by several goroutines at once (serialise, hash, look up, big-integer analysis, code generation for various targets) under a seeded scheduler; results are compared with those alone, the schema before with after. Part of the runs use the race detector."})
}
