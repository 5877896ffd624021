package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"github.com/webrpc/webrpc/zz_dst/p0/schema"
)

// ---- the model of schema sources: an independent description of RIDL files and of what loading them means ----

type PField struct {
	Name     string
	Type     string
	Opt      bool        `json:",omitempty"`
	Meta     [][2]string `json:",omitempty"`
	Comments []string    `json:",omitempty"`
	Trail    string      `json:",omitempty"`
	MTrail   string      `json:",omitempty"` // after the first line of metadata
	Value    string      `json:",omitempty"` // enums
}

type PMethod struct {
	Name                string
	In, Out             []PField
	StreamIn, StreamOut bool        `json:",omitempty"`
	Succinct            bool        `json:",omitempty"`
	Errors              []string    `json:",omitempty"`
	Ann                 [][2]string `json:",omitempty"`
	Comments            []string    `json:",omitempty"`
	Proxy               bool        `json:",omitempty"`
	Trail               string      `json:",omitempty"`
	AnnTrail            string      `json:",omitempty"` // after the last line of annotations
	AnnLines            bool        `json:",omitempty"` // a line for each annotation
}

type PDecl struct {
	Kind     string // type, enum, struct, error, service
	Name     string
	Type     string      `json:",omitempty"`
	Code     int         `json:",omitempty"`
	HTTP     int         `json:",omitempty"`
	Msg      string      `json:",omitempty"`
	Fields   []PField    `json:",omitempty"`
	Methods  []PMethod   `json:",omitempty"`
	Meta     [][2]string `json:",omitempty"`
	Comments []string    `json:",omitempty"`
	Trail    string      `json:",omitempty"`
}

type PImport struct {
	File    int
	Spell   int      `json:",omitempty"`
	Members []string `json:",omitempty"`
	List    bool     `json:",omitempty"`
	Trail   string   `json:",omitempty"`
}

type PFile struct {
	Path        string
	Web         string
	Name        string    `json:",omitempty"`
	Version     string    `json:",omitempty"`
	Base        string    `json:",omitempty"`
	Imports     []PImport `json:",omitempty"`
	ImportsLast bool      `json:",omitempty"`
	Decls       []PDecl   `json:",omitempty"`
	Style       int       `json:",omitempty"`
	Trails      []string  `json:",omitempty"` // after the first lines
	Loose       []string  `json:",omitempty"` // comments that belong to nothing
	Pad         int       `json:",omitempty"` // bytes of comments before the definitions, one line if negative
	Link        bool      `json:",omitempty"` // a symbolic link to a file elsewhere
}

type Project struct {
	DirLinks uint64  `json:",omitempty"` // bits: directories that are symbolic links
	Files    []PFile // 0 is the root; imports lead to higher numbers unless a cycle is wanted
}

func (p *Project) clone() *Project {
	data, _ := json.Marshal(p)
	var q Project
	json.Unmarshal(data, &q)
	return &q
}

func cloneFile(f PFile) PFile {
	data, _ := json.Marshal(f)
	var q PFile
	json.Unmarshal(data, &q)
	return q
}

// typeRefs lists the schema types an expression mentions.
func typeRefs(expr string) []string {
	var out []string
	for _, w := range strings.FieldsFunc(expr, func(r rune) bool { return strings.ContainsRune("[]<>, ", r) }) {
		if w != "" && w[0] >= 'A' && w[0] <= 'Z' {
			out = append(out, w)
		}
	}
	return out
}

func (d *PDecl) refs() []string {
	var out []string
	out = append(out, typeRefs(d.Type)...)
	for _, f := range d.Fields {
		out = append(out, typeRefs(f.Type)...)
	}
	for _, m := range d.Methods {
		for _, f := range append(append([]PField(nil), m.In...), m.Out...) {
			out = append(out, typeRefs(f.Type)...)
		}
		for _, e := range m.Errors {
			out = append(out, e)
		}
	}
	return out
}

// flatSchema is what a load of one file has to yield.
type flatSchema struct {
	Web, Name, Version, Base string
	Types, Errors, Services  []*PDecl
}

func (fs *flatSchema) find(name string) *PDecl {
	for _, l := range [][]*PDecl{fs.Types, fs.Errors, fs.Services} {
		for _, d := range l {
			if d.Name == name {
				return d
			}
		}
	}
	return nil
}

func (p *Project) Flatten(i int) *flatSchema { return p.flatten(i, map[int]*flatSchema{}, 0) }

func (p *Project) flatten(i int, memo map[int]*flatSchema, depth int) *flatSchema {
	if s := memo[i]; s != nil {
		return s
	}
	if depth > len(p.Files)+1 {
		return &flatSchema{}
	}
	f := &p.Files[i]
	s := &flatSchema{Web: f.Web, Name: f.Name, Version: f.Version, Base: f.Base}
	has := map[*PDecl]bool{}
	for _, im := range f.Imports {
		sub := p.flatten(im.File, memo, depth+1)
		ok := func(d *PDecl) bool {
			if has[d] {
				return false
			}
			if len(im.Members) == 0 {
				has[d] = true
				return true
			}
			for _, m := range im.Members {
				if m == d.Name {
					has[d] = true
					return true
				}
			}
			return false
		}
		for _, d := range sub.Types {
			if ok(d) {
				s.Types = append(s.Types, d)
			}
		}
		for _, d := range sub.Errors {
			if ok(d) {
				s.Errors = append(s.Errors, d)
			}
		}
		for _, d := range sub.Services {
			if ok(d) {
				s.Services = append(s.Services, d)
			}
		}
	}
	for _, kind := range []string{"type", "enum", "struct"} {
		for j := range f.Decls {
			if f.Decls[j].Kind == kind {
				s.Types = append(s.Types, &f.Decls[j])
			}
		}
	}
	for j := range f.Decls {
		switch f.Decls[j].Kind {
		case "error":
			s.Errors = append(s.Errors, &f.Decls[j])
		case "service":
			s.Services = append(s.Services, &f.Decls[j])
		}
	}
	memo[i] = s
	return s
}

// sanitize drops whatever became meaningless (after shrinking): unresolved references, members that do not exist.
func (p *Project) sanitize() {
	for round := 0; round < 8; round++ {
		changed := false
		for i := len(p.Files) - 1; i >= 0; i-- {
			f := &p.Files[i]
			var ims []PImport
			for _, im := range f.Imports {
				if im.File < 0 || im.File >= len(p.Files) {
					changed = true
					continue
				}
				if len(im.Members) > 0 {
					sub := p.Flatten(im.File)
					want := map[string]bool{}
					var add func(n string)
					add = func(n string) {
						d := sub.find(n)
						if d == nil || want[n] {
							return
						}
						want[n] = true
						for _, r := range d.refs() {
							add(r)
						}
					}
					for _, m := range im.Members {
						add(m)
					}
					var ms []string
					for _, m := range im.Members {
						if want[m] {
							ms = append(ms, m)
							delete(want, m)
						}
					}
					var rest []string
					for m := range want {
						rest = append(rest, m)
					}
					sort.Strings(rest)
					ms = append(ms, rest...)
					if strings.Join(ms, ",") != strings.Join(im.Members, ",") {
						changed = true
					}
					im.Members = ms
					if len(ms) == 0 {
						continue
					}
					im.List = false
				}
				ims = append(ims, im)
			}
			f.Imports = ims
			s := p.Flatten(i)
			var decls []PDecl
			for _, d := range f.Decls {
				ok := func(expr string) bool {
					for _, r := range typeRefs(expr) {
						t := s.find(r)
						if t == nil || t.Kind == "error" || t.Kind == "service" {
							return false
						}
					}
					return true
				}
				if d.Kind == "type" && !ok(d.Type) {
					changed = true
					continue
				}
				if d.Kind == "struct" {
					var fl []PField
					for _, x := range d.Fields {
						if ok(x.Type) {
							fl = append(fl, x)
						} else {
							changed = true
						}
					}
					d.Fields = fl
				}
				if d.Kind == "service" {
					var ml []PMethod
					for _, m := range d.Methods {
						good := true
						for _, x := range append(append([]PField(nil), m.In...), m.Out...) {
							if !ok(x.Type) {
								good = false
							}
							if m.Succinct {
								if t := s.find(x.Type); t == nil || t.Kind != "struct" {
									good = false
								}
							}
						}
						var el []string
						for _, e := range m.Errors {
							if t := s.find(e); t != nil && t.Kind == "error" {
								el = append(el, e)
							}
						}
						m.Errors = el
						if good {
							ml = append(ml, m)
						} else {
							changed = true
						}
					}
					d.Methods = ml
					if len(ml) == 0 {
						changed = true
						continue
					}
				}
				decls = append(decls, d)
			}
			f.Decls = decls
			if f.Web == "" {
				f.Web = "v1"
			}
			if s := p.Flatten(i); len(s.Services) > 0 && f.Version == "" {
				f.Version = "v0.1.0"
			}
		}
		if !changed {
			return
		}
	}
}

// ---- generation ----

var coreTypes = []string{"string", "uint32", "uint64", "int64", "bool", "float64", "timestamp", "any", "byte", "bigint", "int8", "uint16"}
var keyTypes = []string{"string", "uint32", "int64", "uint8"}
var words = []string{"alpha", "beta", "gamma", "user", "account", "payment", "zebra", "list", "of", "the", "stored", "things", "v2", "http://x.io/a"}

func pick[T any](r *rand.Rand, l []T) T { return l[r.IntN(len(l))] }

func comment(r *rand.Rand) string {
	n := 1 + r.IntN(4)
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, pick(r, words))
	}
	return strings.Join(w, " ")
}

// odd holds words with a meaning to some reader, in a comment they are text.
var odd = []string{`C:\dir\`, `\`, `"quoted"`, "a,b", "it's", "(x)", "=>", "[1]", "<b>", "50%", "é日本", "@see", "-", "a#b", "{{.Name}}", "*/", "`", `"half`, "+ json = x", "import", "!", "?", "&&", "$x", "a|b", "~", ";"}

// free draws the text of a comment.
func free(r *rand.Rand) string {
	s := comment(r)
	if r.IntN(4) == 0 {
		s += " " + pick(r, odd)
		if r.IntN(2) == 0 {
			s += " " + comment(r)
		}
	}
	return s
}

func comments(r *rand.Rand) []string {
	if r.IntN(3) != 0 {
		return nil
	}
	var out []string
	for i := 0; i <= r.IntN(2); i++ {
		out = append(out, free(r))
	}
	if r.IntN(8) == 0 { // not shown
		at := r.IntN(len(out) + 1)
		out = append(out[:at:at], append([]string{"! " + free(r)}, out[at:]...)...)
	}
	return out
}

// shown lists the comments that are part of the schema.
func shown(l []string) []string {
	var out []string
	for _, c := range l {
		if !strings.HasPrefix(c, "!") {
			out = append(out, c)
		}
	}
	return out
}

// oddTexts are parts of quoted texts.
var oddTexts = []string{`say "hi"`, "issue #12", "# x", "é日本 ünï", "tab\there", "line\nbreak", "{{.X}} 50%", "a // b", "HTTP 500", "=> (x)", "\"", "it's", "a, b | c", "<nil>", "🙂"}

func text(r *rand.Rand) string {
	s := comment(r)
	if r.IntN(3) == 0 {
		s += " " + pick(r, oddTexts)
		if r.IntN(2) == 0 {
			s += " " + comment(r)
		}
	}
	return s
}

func trail(r *rand.Rand) string {
	if r.IntN(8) == 0 {
		return free(r)
	}
	return ""
}

type genOpts struct {
	MaxFiles, MaxDecls int
	NoBasePath         bool
	Codegen            bool // only what every embedded template supports
	Big                bool // now and then a file of more than a megabyte
}

var dirs = []string{"/work", "/work/api", "/work/lib", "/work/lib/deep", "/work/my dir", "/srv/shared", "/work/sub-dir.v2", "/work/api/lib", "/srv/lib/deep", "/srv/api", "/work/" + strings.Repeat("a-directory-of-a-long-name/", 8) + "x"}

func genExpr(r *rand.Rand, avail []*PDecl, depth int, co bool) string {
	var enums, any []*PDecl
	for _, d := range avail {
		if d.Kind == "enum" {
			enums = append(enums, d)
		}
		any = append(any, d)
	}
	cores := coreTypes
	if co {
		cores = []string{"string", "uint32", "uint64", "int64", "bool", "float64", "timestamp"}
	}
	switch k := r.IntN(10); {
	case k < 4 || depth > 2:
		return pick(r, cores)
	case k < 7 && len(any) > 0:
		return pick(r, any).Name
	case k < 8:
		return "[]" + genExpr(r, avail, depth+1, co)
	default:
		key := pick(r, keyTypes)
		if len(enums) > 0 && r.IntN(3) == 0 && !co {
			key = pick(r, enums).Name
		}
		return "map<" + key + "," + genExpr(r, avail, depth+1, co) + ">"
	}
}

func genMeta(r *rand.Rand, i int) [][2]string {
	var out [][2]string
	switch r.IntN(8) {
	case 0:
		out = append(out, [2]string{"json", fmt.Sprintf("renamed_%d", i)})
	case 1:
		out = append(out, [2]string{"go.tag.db", pick(r, []string{"-", "col_x", "some/value,omitempty"})})
		out = append(out, [2]string{"go.field.name", fmt.Sprintf("Renamed%d", i)})
	case 2:
		out = append(out, [2]string{"custom", "quoted value here"})
	case 3:
		out = append(out, [2]string{"doc.text", text(r)})
		out = append(out, [2]string{"go.tag.y", pick(r, []string{"é日", "a/b?c", "a,b", "x:y", "[1]", "a=b", "<x>"})})
	}
	return out
}

func genFields(r *rand.Rand, avail []*PDecl, n int, co bool) []PField {
	var out []PField
	for i := 0; i < n; i++ {
		f := PField{Name: fmt.Sprintf("%s%d", pick(r, []string{"id", "name", "createdAt", "stream", "struct", "map_of", "URL"}), i), Type: genExpr(r, avail, 0, co), Opt: r.IntN(4) == 0}
		if !co {
			f.Meta = genMeta(r, i)
			f.Comments = comments(r)
			f.Trail = trail(r)
			if len(f.Meta) > 0 {
				f.MTrail = trail(r)
			}
		}
		out = append(out, f)
	}
	return out
}

// GenProject makes a tree of RIDL files that is valid as a whole.
func GenProject(r *rand.Rand, o genOpts) *Project {
	if o.MaxFiles == 0 {
		o.MaxFiles = 6
	}
	if o.MaxDecls == 0 {
		o.MaxDecls = 5
	}
	n := 1 + r.IntN(o.MaxFiles)
	deep := o.MaxFiles > 2 && r.IntN(60) == 0
	if deep { // a long chain of files, with more than one way down
		n, o.MaxDecls = 10+r.IntN(30), 1
	}
	p := &Project{Files: make([]PFile, n)}
	used := map[string]bool{}
	for i := range p.Files {
		name := pick(r, []string{"api", "types", "common", "errors", "svc", "import", "a", "b", "A", "Types", "c-d", "v1.2", "types.ridl", "ty pes"}) + ".ridl"
		dir := pick(r, dirs)
		if i == 0 {
			dir = pick(r, dirs[:3])
		}
		if i > 0 && r.IntN(6) == 0 { // a twin of another file's name
			twin := path.Base(p.Files[r.IntN(i)].Path)
			dir, name = path.Dir(p.Files[r.IntN(i)].Path), pick(r, []string{twin, strings.ToUpper(twin[:1]) + twin[1:], strings.ToLower(twin), "x" + twin, strings.TrimSuffix(twin, ".ridl") + ".ridl.ridl", strings.Replace(twin, " ", "%20", 1), strings.Replace(twin, "-", "_", 1)})
		}
		pa := path.Join(dir, name)
		for used[pa] {
			pa = strings.TrimSuffix(pa, ".ridl") + fmt.Sprintf("%d.ridl", i)
		}
		used[pa] = true
		p.Files[i].Path = pa
		p.Files[i].Link = r.IntN(12) == 0
	}
	if r.IntN(8) == 0 {
		p.DirLinks = r.Uint64()
	}
	for i := n - 1; i >= 0; i-- {
		f := &p.Files[i]
		f.Web = "v1"
		if i == 0 || r.IntN(3) == 0 {
			f.Name = fmt.Sprintf("app%d", i)
		}
		if i == 0 || r.IntN(3) > 0 {
			f.Version = fmt.Sprintf("v%d.%d.0", i, r.IntN(9))
		}
		if r.IntN(3) == 0 && !o.NoBasePath {
			f.Base = pick(r, []string{"/rpc", "/api/v1/", "rpc", "/base-path"})
		}
		f.ImportsLast = r.IntN(6) == 0
		// imports: higher numbers only; every file is reachable with good chance
		for j := i + 1; j < n; j++ {
			k := 0
			switch {
			case j == i+1 && (deep || r.IntN(4) > 0):
				k = 1
			case deep && j > i+2:
			case r.IntN(3) == 0:
				k = 1
			}
			if k == 1 && r.IntN(8) == 0 {
				k = 2
			}
			for ; k > 0; k-- {
				im := PImport{File: j, Spell: r.IntN(8), List: r.IntN(2) == 0, Trail: trail(r)}
				if r.IntN(3) == 0 {
					s := p.Flatten(j)
					all := append(append(append([]*PDecl(nil), s.Types...), s.Errors...), s.Services...)
					for _, d := range all {
						if r.IntN(2) == 0 {
							im.Members = append(im.Members, d.Name)
						}
					}
					im.List = false
				}
				f.Imports = append(f.Imports, im)
			}
		}
		r.Shuffle(len(f.Imports), func(a, b int) { f.Imports[a], f.Imports[b] = f.Imports[b], f.Imports[a] })
		p.sanitizeOne(i)
		s := p.Flatten(i)
		avail := append([]*PDecl(nil), s.Types...)
		errs := append([]*PDecl(nil), s.Errors...)
		nd := r.IntN(o.MaxDecls + 1)
		if i == 0 && nd == 0 {
			nd = 1
		}
		var decls []*PDecl
		for k := 0; k < nd; k++ {
			d := &PDecl{}
			switch r.IntN(9) {
			case 0:
				d.Kind, d.Name = "type", fmt.Sprintf("T%dx%d", i, k)
				var av []*PDecl
				for _, a := range avail {
					if a.Kind != "type" || !o.Codegen {
						av = append(av, a)
					}
				}
				d.Type = genExpr(r, av, 0, o.Codegen)
				if !o.Codegen {
					d.Meta = genMeta(r, k)
				}
				d.Comments = comments(r)
			case 1, 2:
				d.Kind, d.Name = "enum", fmt.Sprintf("E%dx%d", i, k)
				d.Type = pick(r, []string{"uint32", "string", "int8", "uint64"})
				ne := 1 + r.IntN(4)
				if r.IntN(150) == 0 {
					ne = 30 + r.IntN(60)
				}
				for e := 0; e < ne; e++ {
					f := PField{Name: fmt.Sprintf("KEY_%d", e), Comments: comments(r)}
					if r.IntN(3) == 0 {
						if d.Type == "string" {
							f.Value = fmt.Sprintf("val%d", e)
							if !o.Codegen && r.IntN(4) == 0 {
								f.Value = fmt.Sprintf("%d %s", e, text(r))
							}
						} else {
							f.Value = fmt.Sprint(e * 10)
						}
					}
					f.Trail = trail(r)
					d.Fields = append(d.Fields, f)
				}
				d.Comments, d.Trail = comments(r), trail(r)
			case 3, 4, 5:
				d.Kind, d.Name = "struct", fmt.Sprintf("S%dx%d", i, k)
				av := avail
				if r.IntN(4) == 0 && !o.Codegen {
					av = append(append([]*PDecl(nil), avail...), d) // may refer to itself
				}
				nf := r.IntN(5)
				if r.IntN(150) == 0 {
					nf = 30 + r.IntN(60)
				}
				d.Fields = genFields(r, av, nf, o.Codegen)
				d.Comments = comments(r)
				d.Trail = trail(r)
			case 6, 7:
				d.Kind, d.Name = "error", fmt.Sprintf("X%dx%d", i, k)
				d.Code = 100*i + k + 1
				d.Msg = "failed: " + comment(r)
				if !o.Codegen {
					d.Msg = "failed: " + text(r)
					d.Comments, d.Trail = comments(r), trail(r)
					if r.IntN(10) == 0 {
						d.Msg = "unquoted"
					}
				}
				if r.IntN(2) == 0 {
					d.HTTP = 400 + r.IntN(200)
				}
			default:
				d.Kind, d.Name = "service", fmt.Sprintf("V%dx%d", i, k)
				d.Comments, d.Trail = comments(r), trail(r)
				var structs []*PDecl
				for _, a := range avail {
					if a.Kind == "struct" {
						structs = append(structs, a)
					}
				}
				nm := 1 + r.IntN(4)
				if r.IntN(150) == 0 {
					nm = 20 + r.IntN(30)
				}
				for m := 0; m < nm; m++ {
					me := PMethod{Name: fmt.Sprintf("Do%d", m), Comments: comments(r)}
					if !o.Codegen && r.IntN(6) == 0 {
						me.Name = fmt.Sprintf(pick(r, []string{"Do%dList", "Stream%d", "proxy%d", "errors%d", "stream%d", "service%d"}), m)
					}
					if len(structs) > 0 && r.IntN(5) == 0 {
						me.Succinct = true
						a, b := pick(r, structs).Name, pick(r, structs).Name
						me.In = []PField{{Name: strings.ToLower(a[:1]) + a[1:], Type: a}}
						me.Out = []PField{{Name: strings.ToLower(b[:1]) + b[1:], Type: b}}
					} else {
						for x := 0; x < r.IntN(4); x++ {
							me.In = append(me.In, PField{Name: fmt.Sprintf("arg%d", x), Type: genExpr(r, avail, 0, o.Codegen), Opt: r.IntN(4) == 0 && !o.Codegen})
						}
						for x := 0; x < r.IntN(3); x++ {
							me.Out = append(me.Out, PField{Name: fmt.Sprintf("ret%d", x), Type: genExpr(r, avail, 0, o.Codegen), Opt: r.IntN(6) == 0 && !o.Codegen})
						}
						if len(me.Out) > 0 && r.IntN(5) == 0 {
							me.StreamOut = true
						} else if len(me.In) > 0 && r.IntN(8) == 0 && !o.Codegen {
							me.StreamIn = true
						}
					}
					for _, e := range errs {
						if r.IntN(3) == 0 && len(me.Errors) < 3 {
							me.Errors = append(me.Errors, e.Name)
						}
					}
					if r.IntN(3) == 0 {
						me.Ann = append(me.Ann, [2]string{"auth", pick(r, []string{"admin", "a,b", ""})})
						if r.IntN(2) == 0 {
							me.Ann = append(me.Ann, [2]string{"internal", ""})
						}
						if !o.Codegen && r.IntN(4) == 0 {
							me.Ann = append(me.Ann, [2]string{"note", text(r)})
						}
						me.AnnLines = r.IntN(3) == 0
						me.AnnTrail = trail(r)
					}
					me.Trail = trail(r)
					if !o.Codegen && r.IntN(20) == 0 {
						me = PMethod{Name: me.Name, Comments: me.Comments, Proxy: true, Trail: me.Trail}
					}
					d.Methods = append(d.Methods, me)
				}
			}
			decls = append(decls, d)
			switch d.Kind {
			case "error":
				errs = append(errs, d)
			case "service":
			default:
				avail = append(avail, d)
			}
		}
		if r.IntN(3) == 0 {
			for k := 0; k <= r.IntN(3); k++ {
				f.Style |= 1 << r.IntN(styleBits)
			}
			if r.IntN(3) == 0 {
				f.Style |= styleCRLF
			}
		}
		if r.IntN(4) == 0 && !o.Codegen { // structs that refer to each other
			var structs []*PDecl
			for _, d := range decls {
				if d.Kind == "struct" {
					structs = append(structs, d)
				}
			}
			for k := r.IntN(4); k >= 0 && len(structs) > 0; k-- {
				d := pick(r, structs)
				l := PField{Name: fmt.Sprintf("back%d", k), Type: pick(r, []string{"", "", "[]", "[]", "[][]"}) + pick(r, structs).Name, Opt: r.IntN(2) == 0}
				at := r.IntN(len(d.Fields) + 1)
				d.Fields = append(d.Fields[:at:at], append([]PField{l}, d.Fields[at:]...)...)
			}
		}
		// The order inside the file is free.
		r.Shuffle(len(decls), func(a, b int) { decls[a], decls[b] = decls[b], decls[a] })
		for k := range 4 {
			if c := trail(r); c != "" {
				f.Trails = append(f.Trails, make([]string, k+1-len(f.Trails))...)
				f.Trails[k] = c
			}
		}
		if r.IntN(3) == 0 {
			f.Loose = comments(r)
		}
		if o.MaxFiles > 1 && !deep && r.IntN(80) == 0 { // around the sizes of common buffers
			f.Pad = 1<<(12+r.IntN(5)) + r.IntN(3000)
			if o.Big && r.IntN(60) == 0 { // more than a megabyte
				f.Pad = 1<<20 + 1<<(10+r.IntN(9))
			}
			if r.IntN(3) == 0 {
				f.Pad = -f.Pad
			}
		}
		for _, d := range decls {
			f.Decls = append(f.Decls, *d)
		}
	}
	p.sanitize()
	if !o.Codegen && r.IntN(3) == 0 {
		p.rename(r)
	}
	return p
}

var nameParts = []string{"User", "Order", "Stream", "Mapping", "Anything", "Uint8x", "Errors", "Structure", "Imports", "Enumeration", "Services", "I", "Timestamps", "Proxy", "Id"}

var genName = regexp.MustCompile(`\b[TESXV]\d+x\d+\b`)

// rename gives the definitions names that are parts of each other.
func (p *Project) rename(r *rand.Rand) {
	words := nameParts
	if r.IntN(2) == 0 {
		at := r.IntN(len(words) - 1)
		words = words[at : at+2]
	}
	long := r.IntN(12) == 0
	used := map[string]bool{}
	names := map[string]string{}
	to := func(old string) string {
		if n, ok := names[old]; ok {
			return n
		}
		var n string
		for i := 0; n == "" || used[strings.ToLower(n)]; i++ {
			w := pick(r, words)
			n = w + pick(r, []string{"", "s", "List", "V2", "_x", "Error", pick(r, words)})
			if r.IntN(4) == 0 {
				n = pick(r, []string{"My", "T", pick(r, words)}) + n
			}
			if long {
				n += strings.Repeat(pick(r, []string{"Very", "Long", "Name"}), 10+r.IntN(40))
			}
			if i > 20 {
				n += fmt.Sprint(len(names))
			}
		}
		used[strings.ToLower(n)] = true
		names[old] = n
		return n
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.Encode(p)
	var q Project
	if err := json.Unmarshal([]byte(genName.ReplaceAllStringFunc(buf.String(), to)), &q); err != nil {
		panic(err)
	}
	for i := range q.Files {
		for k := range q.Files[i].Decls {
			for m := range q.Files[i].Decls[k].Methods {
				me := &q.Files[i].Decls[k].Methods[m]
				if me.Succinct {
					for _, l := range [][]PField{me.In, me.Out} {
						for x := range l {
							l[x].Name = strings.ToLower(l[x].Type[:1]) + l[x].Type[1:]
						}
					}
				}
			}
		}
	}
	*p = q
}

func (p *Project) sanitizeOne(i int) {
	q := &Project{Files: append([]PFile(nil), p.Files...)}
	for j := 0; j < i; j++ {
		q.Files[j] = PFile{Path: p.Files[j].Path, Web: "v1"}
	}
	q.sanitize()
	p.Files[i] = q.Files[i]
}

// bump returns another version of a file: the same names, other contents.
func bump(f PFile, v int) PFile {
	g := cloneFile(f)
	for i := range g.Decls {
		d := &g.Decls[i]
		switch d.Kind {
		case "struct":
			d.Fields = append(d.Fields, PField{Name: fmt.Sprintf("ver%d", v), Type: "uint32"})
		case "enum":
			d.Fields = append(d.Fields, PField{Name: fmt.Sprintf("VER_%d", v)})
		case "error":
			d.Msg += fmt.Sprintf(" v%d", v)
		case "service":
			d.Methods = append(d.Methods, PMethod{Name: fmt.Sprintf("Ver%d", v)})
		}
	}
	tag := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, f.Path)
	g.Decls = append(g.Decls, PDecl{Kind: "struct", Name: fmt.Sprintf("Ver%d%s", v, tag), Fields: []PField{{Name: "x", Type: "string"}}})
	return g
}

// ---- rendering ----

func relPath(fromDir, to string) string {
	a := strings.Split(strings.Trim(fromDir, "/"), "/")
	b := strings.Split(strings.Trim(to, "/"), "/")
	i := 0
	for i < len(a) && i < len(b)-1 && a[i] == b[i] {
		i++
	}
	return strings.Repeat("../", len(a)-i) + strings.Join(b[i:], "/")
}

func spellPath(from, to string, style int) string {
	rel := relPath(path.Dir(from), to)
	switch style % 6 {
	case 1:
		if !strings.HasPrefix(rel, "../") {
			rel = "./" + rel
		}
	case 2:
		rel = "../" + path.Base(path.Dir(from)) + "/" + rel
	case 3:
		rel = strings.Replace(rel, "/", "/./", 1)
	case 4:
		rel = "x/../" + rel
	}
	if strings.ContainsAny(rel, " ") || style >= 6 {
		return `"` + rel + `"`
	}
	return rel
}

func quoteVal(s string) string {
	if strings.ContainsAny(s, " \"#\t\n") {
		return quoteMsg(s)
	}
	return s
}

func quoteMsg(s string) string {
	return `"` + strings.NewReplacer(`"`, `\"`, "\n", `\n`, "\t", `\t`).Replace(s) + `"`
}

func renderArgs(fs []PField) string {
	var out []string
	for _, f := range fs {
		o := ""
		if f.Opt {
			o = "?"
		}
		out = append(out, f.Name+o+": "+f.Type)
	}
	return "(" + strings.Join(out, ", ") + ")"
}

func tr(s string) string {
	if s == "" {
		return ""
	}
	return " # " + s
}

// renderDecl gives the text of one declaration without comments above it.
func renderDecl(d *PDecl) string {
	var b strings.Builder
	com := func(ind string, l []string) {
		for _, c := range l {
			fmt.Fprintf(&b, "%s# %s\n", ind, c)
		}
	}
	meta := func(ind string, l [][2]string, trail string) {
		for i, m := range l {
			if i > 0 {
				trail = ""
			}
			fmt.Fprintf(&b, "%s+ %s = %s%s\n", ind, m[0], quoteVal(m[1]), tr(trail))
		}
	}
	switch d.Kind {
	case "type":
		fmt.Fprintf(&b, "type %s: %s\n", d.Name, d.Type)
		meta("  ", d.Meta, "")
	case "enum":
		fmt.Fprintf(&b, "enum %s: %s%s\n", d.Name, d.Type, tr(d.Trail))
		for _, f := range d.Fields {
			com("  ", f.Comments)
			if f.Value != "" {
				fmt.Fprintf(&b, "  - %s = %s%s\n", f.Name, quoteVal(f.Value), tr(f.Trail))
			} else {
				fmt.Fprintf(&b, "  - %s%s\n", f.Name, tr(f.Trail))
			}
		}
	case "struct":
		fmt.Fprintf(&b, "struct %s%s\n", d.Name, tr(d.Trail))
		for _, f := range d.Fields {
			com("  ", f.Comments)
			o := ""
			if f.Opt {
				o = "?"
			}
			fmt.Fprintf(&b, "  - %s%s: %s%s\n", f.Name, o, f.Type, tr(f.Trail))
			meta("    ", f.Meta, f.MTrail)
		}
	case "error":
		msg := quoteMsg(d.Msg)
		if d.Msg == "unquoted" {
			msg = d.Msg
		}
		fmt.Fprintf(&b, "error %d %s %s", d.Code, d.Name, msg)
		if d.HTTP != 0 {
			fmt.Fprintf(&b, " HTTP %d", d.HTTP)
		}
		b.WriteString(tr(d.Trail) + "\n")
	case "service":
		fmt.Fprintf(&b, "service %s%s\n", d.Name, tr(d.Trail))
		for _, m := range d.Methods {
			com("  ", m.Comments)
			if len(m.Ann) > 0 {
				var an []string
				for _, a := range m.Ann {
					switch {
					case a[1] == "":
						an = append(an, "@"+a[0])
					case strings.Trim(a[1], "abcdefghijklmnopqrstuvwxyz") != "":
						an = append(an, "@"+a[0]+":"+quoteMsg(a[1]))
					default:
						an = append(an, "@"+a[0]+":"+a[1])
					}
				}
				sep := " "
				if m.AnnLines {
					sep = "\n  "
				}
				fmt.Fprintf(&b, "  %s%s\n", strings.Join(an, sep), tr(m.AnnTrail))
			}
			b.WriteString("  - ")
			if m.Proxy {
				fmt.Fprintf(&b, "proxy %s%s\n", m.Name, tr(m.Trail))
				continue
			}
			if m.StreamIn {
				b.WriteString("stream ")
			}
			b.WriteString(m.Name)
			if m.Succinct {
				fmt.Fprintf(&b, "(%s) => (%s)", m.In[0].Type, m.Out[0].Type)
			} else {
				b.WriteString(renderArgs(m.In))
				if len(m.Out) > 0 {
					b.WriteString(" => ")
					if m.StreamOut {
						b.WriteString("stream ")
					}
					b.WriteString(renderArgs(m.Out))
				}
			}
			if len(m.Errors) > 0 {
				b.WriteString(" errors " + strings.Join(m.Errors, " | "))
			}
			b.WriteString(tr(m.Trail) + "\n")
		}
	}
	return b.String()
}

// Ways to write the same source; the bits of PFile.Style.
const (
	styleCRLF   = 1 << iota // Windows line ends
	styleTrail              // blanks before line ends
	styleTabs               // indentation by tabs
	styleBlank              // more and blank-filled empty lines
	styleWide               // more blanks between words
	styleNoEnd              // no line end at the end of the file
	styleIndent             // deeper indentation
	styleTight              // no empty lines between definitions
	styleBits   = iota
)

func restyle(s string, style int) string {
	if style == 0 {
		return s
	}
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		body := strings.TrimLeft(l, " ")
		ind := l[:len(l)-len(body)]
		if style&styleTabs != 0 {
			ind = strings.ReplaceAll(ind, "  ", "\t")
		}
		if style&styleIndent != 0 {
			ind += ind
		}
		if style&styleWide != 0 && strings.Contains(body, " = ") && !strings.Contains(body, "#") {
			body = strings.Replace(body, " = ", "   =  ", 1)
		}
		l = ind + body
		if body == "" && i < len(lines)-1 && style&styleBlank != 0 && i%2 == 0 {
			out = append(out, "", " \t", "")
		}
		if style&styleTrail != 0 && i%3 == 0 && i < len(lines)-1 {
			l += " \t "[:1+i%2]
		}
		out = append(out, l)
	}
	nl := "\n"
	if style&styleCRLF != 0 {
		nl = "\r\n"
	}
	s = strings.Join(out, nl)
	if style&styleNoEnd != 0 {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

// Render gives the source of a file of the project.
func (p *Project) Render(i int) string { return restyle(p.render(i), p.Files[i].Style) }

// padding makes comments of n bytes, of -n bytes in one line if n is negative.
func padding(n int) string {
	if n < 0 {
		return "# " + strings.Repeat("word ", -n/5) + "\n"
	}
	return strings.Repeat("# some words that fill the line and mean nothing at all\n", n/56+1)
}

func (p *Project) render(i int) string {
	f := &p.Files[i]
	var b strings.Builder
	trail := func(i int) string {
		if i < len(f.Trails) {
			return tr(f.Trails[i])
		}
		return ""
	}
	fmt.Fprintf(&b, "webrpc = %s%s\n\n", f.Web, trail(0))
	if f.Name != "" {
		fmt.Fprintf(&b, "name = %s%s\n", f.Name, trail(1))
	}
	if f.Version != "" {
		fmt.Fprintf(&b, "version = %s%s\n", f.Version, trail(2))
	}
	if f.Base != "" {
		fmt.Fprintf(&b, "basepath = %s%s\n", f.Base, trail(3))
	}
	if f.Style&styleTight == 0 || len(f.Imports) > 0 {
		b.WriteString("\n")
	}
	loose := func() {
		for _, c := range f.Loose {
			fmt.Fprintf(&b, "\n# %s\n", c)
		}
		if len(f.Loose) > 0 {
			b.WriteString("\n")
		}
	}
	imports := func() {
		open := false
		for _, im := range f.Imports {
			sp := spellPath(f.Path, p.Files[im.File].Path, im.Spell)
			if im.List && len(im.Members) == 0 {
				if !open {
					b.WriteString("import\n")
					open = true
				}
				fmt.Fprintf(&b, "  - %s%s\n", sp, tr(im.Trail))
				continue
			}
			open = false
			fmt.Fprintf(&b, "\nimport %s%s\n", sp, tr(im.Trail))
			for _, m := range im.Members {
				fmt.Fprintf(&b, "  - %s\n", m)
			}
		}
		if len(f.Imports) > 0 {
			b.WriteString("\n\n")
		}
	}
	if !f.ImportsLast {
		imports()
	}
	if f.Pad != 0 {
		b.WriteString("\n" + padding(f.Pad) + "\n")
	}
	for j := range f.Decls {
		d := &f.Decls[j]
		if j == len(f.Decls)/2 {
			loose()
		}
		if f.Style&styleTight == 0 {
			b.WriteString("\n")
		}
		for _, c := range d.Comments {
			fmt.Fprintf(&b, "# %s\n", c)
		}
		b.WriteString(renderDecl(d))
	}
	if f.ImportsLast {
		b.WriteString("\n")
		imports()
	}
	return b.String()
}

// linkDirs makes some of the directories symbolic links to others.
func (p *Project) linkDirs(w *World) {
	for i, d := range p.dirs() {
		if p.DirLinks>>i&1 == 1 && path.Dir(d) != "/" && !w.Exists(d) {
			real := fmt.Sprintf("/store/dirs/%d/x", i)
			w.MkdirAll(real)
			w.Symlink(real, d)
			w.Stats["event.linked_dir"]++
		}
	}
}

func (p *Project) dirs() []string {
	var out []string
	for i := range p.Files {
		if d := path.Dir(p.Files[i].Path); !slices.Contains(out, d) {
			out = append(out, d)
		}
	}
	sort.Strings(out)
	return out
}

func (p *Project) Write(w *World) {
	p.linkDirs(w)
	for i := range p.Files {
		w.WriteFile(p.Files[i].Path, p.Render(i))
	}
	p.link(w)
}

// link moves the content of files that are symbolic links to where they lead. Imports start from the link's directory.
func (p *Project) link(w *World) {
	for i := range p.Files {
		f := &p.Files[i]
		text, ok := w.ReadFile(f.Path)
		if !f.Link || !ok {
			continue
		}
		real := fmt.Sprintf("/store/%d/schema-%d.v1", i%2, i)
		w.WriteFile(real, text)
		if i%2 == 0 && p.DirLinks == 0 {
			real, _ = filepath.Rel(path.Dir(f.Path), real)
		}
		w.Symlink(real, f.Path)
		w.Stats["event.linked_file"]++
	}
}

// ---- canonical form ----

func canonComments(l []string) string { return strings.Join(l, "|") }

func canonMeta(l [][2]string) string {
	var o []string
	for _, m := range l {
		o = append(o, m[0]+"="+m[1])
	}
	return strings.Join(o, ";")
}

func withTrail(c []string, trails ...string) []string {
	c = shown(c)
	for _, t := range trails {
		if t != "" {
			c = append(c, t)
		}
	}
	return c
}

func canonBase(b string) string {
	if b == "" {
		return ""
	}
	if !strings.HasPrefix(b, "/") {
		b = "/" + b
	}
	if !strings.HasSuffix(b, "/") {
		b += "/"
	}
	return b
}

// docs lists the comments of a method: those above it, after its annotations and after itself.
func (m *PMethod) docs() []string {
	if len(m.Ann) == 0 {
		return withTrail(m.Comments, m.Trail)
	}
	return withTrail(m.Comments, m.AnnTrail, m.Trail)
}

func (d *PDecl) canon() string {
	var b strings.Builder
	switch d.Kind {
	case "type":
		fmt.Fprintf(&b, "alias %s = %s meta{%s} #%s\n", d.Name, d.Type, canonMeta(d.Meta), canonComments(withTrail(d.Comments)))
	case "enum":
		fmt.Fprintf(&b, "enum %s : %s\n", d.Name, d.Type)
		for i, f := range d.Fields {
			v := f.Value
			if v == "" {
				v = fmt.Sprint(i)
				if d.Type == "string" {
					v = f.Name
				}
			}
			fmt.Fprintf(&b, "  %s=%s #%s\n", f.Name, v, canonComments(withTrail(f.Comments, f.Trail)))
		}
	case "struct":
		fmt.Fprintf(&b, "struct %s #%s\n", d.Name, canonComments(withTrail(d.Comments, d.Trail)))
		for _, f := range d.Fields {
			fmt.Fprintf(&b, "  %s opt=%v %s meta{%s} #%s\n", f.Name, f.Opt, f.Type, canonMeta(f.Meta), canonComments(withTrail(f.Comments, f.Trail)))
		}
	case "error":
		h := d.HTTP
		if h == 0 {
			h = 400
		}
		fmt.Fprintf(&b, "error %d %s %q %d\n", d.Code, d.Name, d.Msg, h)
	case "service":
		fmt.Fprintf(&b, "service %s #%s\n", d.Name, canonComments(withTrail(d.Comments, d.Trail)))
		for _, m := range d.Methods {
			ann := append([][2]string(nil), m.Ann...)
			sort.Slice(ann, func(i, j int) bool { return ann[i][0] < ann[j][0] })
			fmt.Fprintf(&b, "  %s succinct=%v stream=%v,%v in%s out%s errors%v ann{%s} #%s\n", m.Name, m.Succinct, m.StreamIn, m.StreamOut && len(m.Out) > 0, renderArgs(m.In), renderArgs(m.Out), m.Errors, canonMeta(ann), canonComments(m.docs()))
		}
	}
	return b.String()
}

func (fs *flatSchema) Canon() string {
	var b strings.Builder
	fmt.Fprintf(&b, "webrpc=%s name=%s version=%s base=%s\n", fs.Web, fs.Name, fs.Version, canonBase(fs.Base))
	for _, l := range [][]*PDecl{fs.Types, fs.Errors, fs.Services} {
		for _, d := range l {
			b.WriteString(d.canon())
		}
		b.WriteString("--\n")
	}
	return b.String()
}

// canonVar renders a resolved type from its structure and checks that references lead into the schema itself.
func canonVar(s *schema.WebRPCSchema, t *schema.VarType) string {
	if t == nil {
		return "<nil>"
	}
	ref := func(name string, ty *schema.Type) string {
		for _, x := range s.Types {
			if x.Name == name {
				if x != ty {
					return name + "!foreign"
				}
				return name
			}
		}
		return name + "!missing"
	}
	switch {
	case t.List != nil:
		return "[]" + canonVar(s, t.List.Elem)
	case t.Map != nil:
		return "map<" + canonVar(s, t.Map.Key) + "," + canonVar(s, t.Map.Value) + ">"
	case t.Struct != nil:
		return ref(t.Struct.Name, t.Struct.Type)
	case t.Enum != nil:
		return ref(t.Enum.Name, t.Enum.Type)
	case t.Alias != nil:
		return ref(t.Alias.Name, t.Alias.Type)
	}
	if t.Type == schema.T_Unknown {
		return t.Expr + "!unresolved"
	}
	return t.Type.String()
}

func canonExtraMeta(l []schema.TypeFieldMeta) string {
	var o []string
	for _, m := range l {
		var k []string
		for x := range m {
			k = append(k, x)
		}
		sort.Strings(k)
		for _, x := range k {
			o = append(o, fmt.Sprintf("%s=%v", x, m[x]))
		}
	}
	return strings.Join(o, ";")
}

// canonSchema is the canonical form of a loaded schema. Schemas loaded from JSON keep alias and enum types unresolved.
func canonSchema(s *schema.WebRPCSchema, fromJSON bool) string {
	if s == nil {
		return "<nil schema>"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "webrpc=%s name=%s version=%s base=%s\n", s.WebrpcVersion, s.SchemaName, s.SchemaVersion, s.BasePath)
	v := func(t *schema.VarType) string {
		c := canonVar(s, t)
		if t != nil && t.Expr != c {
			return fmt.Sprintf("%s!expr(%s)", c, t.Expr)
		}
		return c
	}
	loose := v
	if fromJSON {
		loose = func(t *schema.VarType) string {
			if t == nil {
				return "<nil>"
			}
			return t.Expr
		}
	}
	for _, t := range s.Types {
		if t == nil {
			b.WriteString("<nil type>\n")
			continue
		}
		switch t.Kind {
		case "alias":
			fmt.Fprintf(&b, "alias %s = %s meta{%s} #%s\n", t.Name, loose(t.Type), canonExtraMeta(t.Meta), canonComments(t.Comments))
		case "enum":
			fmt.Fprintf(&b, "enum %s : %s\n", t.Name, loose(t.Type))
			for _, f := range t.Fields {
				fmt.Fprintf(&b, "  %s=%s #%s\n", f.Name, f.Value, canonComments(f.Comments))
			}
		default:
			fmt.Fprintf(&b, "%s %s #%s\n", t.Kind, t.Name, canonComments(t.Comments))
			for _, f := range t.Fields {
				fmt.Fprintf(&b, "  %s opt=%v %s meta{%s} #%s\n", f.Name, f.Optional, v(f.Type), canonExtraMeta(f.Meta), canonComments(f.Comments))
			}
		}
	}
	b.WriteString("--\n")
	for _, e := range s.Errors {
		if e == nil {
			b.WriteString("<nil error>\n")
			continue
		}
		fmt.Fprintf(&b, "error %d %s %q %d\n", e.Code, e.Name, e.Message, e.HTTPStatus)
	}
	b.WriteString("--\n")
	args := func(l []*schema.MethodArgument) string {
		var o []string
		for _, a := range l {
			q := ""
			if a.Optional {
				q = "?"
			}
			o = append(o, a.Name+q+": "+v(a.Type))
		}
		return "(" + strings.Join(o, ", ") + ")"
	}
	for _, sv := range s.Services {
		if sv == nil {
			b.WriteString("<nil service>\n")
			continue
		}
		fmt.Fprintf(&b, "service %s #%s\n", sv.Name, canonComments(sv.Comments))
		for _, m := range sv.Methods {
			var ann [][2]string
			for k, a := range m.Annotations {
				val := ""
				if a != nil {
					val = a.Value
				}
				ann = append(ann, [2]string{k, val})
			}
			sort.Slice(ann, func(i, j int) bool { return ann[i][0] < ann[j][0] })
			fmt.Fprintf(&b, "  %s succinct=%v stream=%v,%v in%s out%s errors%v ann{%s} #%s\n", m.Name, m.Succinct, m.StreamInput, m.StreamOutput, args(m.Inputs), args(m.Outputs), m.Errors, canonMeta(ann), canonComments(m.Comments))
		}
	}
	b.WriteString("--\n")
	return b.String()
}

// RenderJSON gives the JSON form of a flattened schema.
func (fs *flatSchema) RenderJSON() string {
	type m = map[string]any
	metaOf := func(l [][2]string) []any {
		var o []any
		for _, x := range l {
			o = append(o, m{x[0]: x[1]})
		}
		return o
	}
	types, errs, svcs := []any{}, []any{}, []any{}
	for _, d := range fs.Types {
		t := m{"name": d.Name}
		if len(shown(d.Comments)) > 0 || d.Trail != "" {
			t["comments"] = withTrail(d.Comments, d.Trail)
		}
		fields := []any{}
		switch d.Kind {
		case "type":
			t["kind"], t["type"] = "alias", d.Type
			if len(d.Meta) > 0 {
				t["meta"] = metaOf(d.Meta)
			}
		case "enum":
			t["kind"], t["type"] = "enum", d.Type
			delete(t, "comments")
			for i, f := range d.Fields {
				v := f.Value
				if v == "" {
					v = fmt.Sprint(i)
					if d.Type == "string" {
						v = f.Name
					}
				}
				fields = append(fields, m{"name": f.Name, "value": v, "comments": withTrail(f.Comments, f.Trail)})
			}
		case "struct":
			t["kind"] = "struct"
			for _, f := range d.Fields {
				x := m{"name": f.Name, "type": f.Type, "comments": withTrail(f.Comments, f.Trail)}
				if f.Opt {
					x["optional"] = true
				}
				if len(f.Meta) > 0 {
					x["meta"] = metaOf(f.Meta)
				}
				fields = append(fields, x)
			}
		}
		t["fields"] = fields
		types = append(types, t)
	}
	for _, d := range fs.Errors {
		h := d.HTTP
		if h == 0 {
			h = 400
		}
		errs = append(errs, m{"code": d.Code, "name": d.Name, "message": d.Msg, "httpStatus": h})
	}
	args := func(l []PField) []any {
		o := []any{}
		for _, f := range l {
			o = append(o, m{"name": f.Name, "type": f.Type, "optional": f.Opt})
		}
		return o
	}
	for _, d := range fs.Services {
		ms := []any{}
		for _, x := range d.Methods {
			an := m{}
			for _, a := range x.Ann {
				an[a[0]] = m{"annotationType": a[0], "value": a[1]}
			}
			ms = append(ms, m{"name": x.Name, "inputs": args(x.In), "outputs": args(x.Out), "streamInput": x.StreamIn, "streamOutput": x.StreamOut && len(x.Out) > 0,
				"succinct": x.Succinct, "errors": x.Errors, "comments": x.docs(), "annotations": an})
		}
		svcs = append(svcs, m{"name": d.Name, "methods": ms, "comments": withTrail(d.Comments, d.Trail)})
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(m{"webrpc": fs.Web, "name": fs.Name, "version": fs.Version, "basepath": fs.Base, "types": types, "errors": errs, "services": svcs})
	return buf.String()
}

// shrinkProject proposes smaller projects.
func shrinkProject(p *Project) []*Project {
	var out []*Project
	add := func(q *Project) {
		q.sanitize()
		out = append(out, q)
	}
	// drop a whole file
	for i := len(p.Files) - 1; i > 0; i-- {
		q := p.clone()
		q.Files = append(q.Files[:i], q.Files[i+1:]...)
		for j := range q.Files {
			var ims []PImport
			for _, im := range q.Files[j].Imports {
				if im.File == i {
					continue
				}
				if im.File > i {
					im.File--
				}
				ims = append(ims, im)
			}
			q.Files[j].Imports = ims
		}
		add(q)
	}
	for i := range p.Files {
		if len(p.Files[i].Decls) > 1 {
			q := p.clone()
			q.Files[i].Decls = nil
			add(q)
		}
	}
	for i := range p.Files {
		for j := range p.Files[i].Imports {
			q := p.clone()
			q.Files[i].Imports = append(q.Files[i].Imports[:j], q.Files[i].Imports[j+1:]...)
			add(q)
		}
		for j := range p.Files[i].Decls {
			q := p.clone()
			q.Files[i].Decls = append(q.Files[i].Decls[:j], q.Files[i].Decls[j+1:]...)
			add(q)
		}
	}
	for i := range p.Files {
		for j := range p.Files[i].Imports {
			if im := p.Files[i].Imports[j]; len(im.Members) > 0 || im.Spell != 0 || im.Trail != "" {
				q := p.clone()
				q.Files[i].Imports[j] = PImport{File: im.File, List: true}
				add(q)
			}
		}
		for j, d := range p.Files[i].Decls {
			if len(d.Comments) > 0 || d.Trail != "" || len(d.Meta) > 0 {
				q := p.clone()
				x := &q.Files[i].Decls[j]
				x.Comments, x.Trail, x.Meta = nil, "", nil
				add(q)
			}
			for k := range d.Fields {
				q := p.clone()
				x := &q.Files[i].Decls[j]
				x.Fields = append(x.Fields[:k], x.Fields[k+1:]...)
				add(q)
			}
			for k := range d.Methods {
				q := p.clone()
				x := &q.Files[i].Decls[j]
				x.Methods = append(x.Methods[:k], x.Methods[k+1:]...)
				add(q)
			}
		}
	}
	return out
}

func (p *Project) note() string {
	var b strings.Builder
	for i := range p.Files {
		f := &p.Files[i]
		fmt.Fprintf(&b, "%s{", f.Path)
		for _, im := range f.Imports {
			fmt.Fprintf(&b, "import %s", p.Files[im.File].Path)
			if len(im.Members) > 0 {
				fmt.Fprintf(&b, "(%d members)", len(im.Members))
			}
			b.WriteString(" ")
		}
		for _, d := range f.Decls {
			fmt.Fprintf(&b, "%s %s ", d.Kind, d.Name)
		}
		b.WriteString("} ")
	}
	return b.String()
}
