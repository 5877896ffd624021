package sim

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/webrpc/webrpc/zz_dst/p0/schema"
)

// The scenario of C12: webrpc-gen as a command, one to three processes at a time, under faults of every system call
// including writes to standard output, crashes and kills; the model of the schema tells what it has to write.

type cliRun struct {
	Slot     int
	Cwd      string
	JSON     bool   // read the JSON form of the schema
	Rel      bool   // relative paths where possible
	Target   string // json, dir, golang, typescript
	Dir      string // template directory of target dir
	Fmt      string // "", "true", "false"
	Silent   bool
	Out      string // "" and "stdout": standard output
	Services []string
	Shake    bool
	Match    []string
	Ignore   []string
	Version  string // -schemaVersion
	Opts     [][2]string
	Bad      string // makes the command fail
	Ask      string `json:",omitempty"` // help, h, version: only show that
	StdoutTo string
	Faults   []Fault
	Delay    time.Duration
	Kill     time.Duration
	Stale    int `json:",omitempty"` // what is in the place of the output before: nearly the same
	Links    int `json:",omitempty"` // bits: which templates are symbolic links, 16 for their directory
}

// stale is an old output that differs little from the one to come.
func (c *cliRun) stale(ref string) string {
	switch c.Stale {
	case 1:
		return ref + "\n"
	case 2:
		return "\n" + ref
	case 3:
		return strings.TrimRight(ref, "\n")
	case 4:
		return strings.ReplaceAll(ref, "\n", "\r\n")
	case 5:
		return ref[:len(ref)/2]
	case 6:
		return ref + ref
	case 7:
		return strings.ToUpper(ref)
	case 8:
		return strings.Repeat("x", len(ref))
	case 9:
		return ref + strings.Repeat(" ", 4096)
	case 10:
		return ""
	case 11:
		return strings.Join(strings.Fields(ref), " ")
	}
	return ref
}

type cliBody struct {
	S        Sched
	Proj     *Project
	Runs     []cliRun
	Existing map[string]int // number of lines
	Env      string
	EnvEmpty bool `json:",omitempty"` // the variable is there without a value
	Pad      int
	Chunk    int
	DirChunk int
	SysLat   time.Duration
	Edit     int `json:",omitempty"` // how sources or templates are changed before a last round of runs
}

// edited gives the scenario after the change.
func (b *cliBody) edited() *cliBody {
	c := *b
	c.Proj = b.Proj.clone()
	same := func(s string) string { // another text of the same length
		o := []byte(s)
		for i := len(o) - 1; i >= 0; i-- {
			if o[i] >= '0' && o[i] <= '9' {
				o[i] = '0' + (o[i]-'0'+1)%10
				return string(o)
			}
		}
		return s + "1"
	}
	f := &c.Proj.Files[0]
	switch b.Edit % 6 {
	case 1:
		f.Version = same(f.Version)
	case 2:
		f.Name = same(f.Name)
	case 3: // in the middle of the output
		for i := range c.Proj.Files {
			for j := range c.Proj.Files[i].Decls {
				d := &c.Proj.Files[i].Decls[j]
				if d.Kind == "error" {
					d.Msg = strings.Replace(d.Msg, "failed: ", "flawed: ", 1)
				}
			}
		}
	case 4:
		c.Pad = b.Pad / 2
	case 5:
		f.Name += "more"
		c.Pad = b.Pad + 3
	}
	return &c
}

var cliTemplates = map[string]string{
	"main.go.tmpl": `{{- define "main" -}}
{{if exists .Opts "help"}}Options of {{.WebrpcTarget}}:
{{range $k, $v := .Opts}}  -{{$k}}={{$v}}
{{end}}{{template "tail" .}}
(end of help){{else -}}
schema {{.SchemaName}} {{.SchemaVersion}} {{.BasePath}}
{{range $_, $t := .Types}}{{template "type" $t}}{{end -}}
{{range $_, $e := .Errors}}error {{$e.Code}} {{$e.Name}} {{$e.HTTPStatus}} {{$e.Message}}
{{end -}}
{{range $_, $s := .Services}}{{template "zservice" $s}}{{end -}}
{{range $k, $v := .Opts}}opt {{$k}}={{$v}}
{{end -}}
bigints {{SchemaUsesBigInts .WebRPCSchema}}
{{range $k, $v := SchemaBigIntFieldsByType .WebRPCSchema}}bigint {{$k}} {{$v}}
{{end -}}
{{block "tail" .}}default tail{{end}}{{end -}}
{{- end -}}
{{define "kind"}}{{if isCoreType .}}core{{else if isListType .}}list({{template "kind" (listElemType .)}}){{else if isMapType .}}map({{mapKeyType .}},{{mapValueType .}}){{else if isEnumType .}}enum{{else if isStructType .}}struct{{else if isAliasType .}}alias{{else}}unknown{{end}}{{end -}}
{{define "type"}}default type
{{end}}{{define "zservice"}}default service
{{end}}`,
	"type.go.tmpl": `{{define "type" -}}
{{.Kind}} {{.Name}} {{isStructType .}} {{isEnumType .}} {{isAliasType .}}
{{range $_, $f := .Fields}}  {{$f.Name}} {{$f.Optional}} {{$f.Value}} {{if $f.Type}}{{$f.Type}} {{template "kind" $f.Type}}{{end}}
{{end -}}
{{end}}`,
	"zservice.go.tmpl": `{{define "zservice" -}}
service {{.Name}}
{{range $_, $m := .Methods}}  {{$m.Name}} {{$m.StreamInput}} {{$m.StreamOutput}}{{range $_, $a := $m.Inputs}} {{$a.Name}}:{{$a.Type}}:{{template "kind" $a.Type}}:{{$a.Optional}}{{end}} =>{{range $_, $a := $m.Outputs}} {{$a.Name}}:{{$a.Type}}:{{template "kind" $a.Type}}:{{$a.Optional}}{{end}}
{{end -}}
{{end}}`,
}

// cliTail is a part of the text which makes it long.
func cliTail(pad int) string {
	return "tail " + strings.Repeat("0123456789abcde\n", pad) + "end"
}

// kindOf is the model of the functions that tell templates what a type is.
func (fs *flatSchema) kindOf(expr string) string {
	if e, ok := strings.CutPrefix(expr, "[]"); ok {
		return "list(" + fs.kindOf(e) + ")"
	}
	if e, ok := strings.CutPrefix(expr, "map<"); ok {
		k, v, _ := strings.Cut(strings.TrimSuffix(e, ">"), ",")
		return "map(" + k + "," + v + ")"
	}
	if d := fs.find(expr); d != nil {
		if d.Kind == "type" {
			return "alias"
		}
		return d.Kind
	}
	return "core"
}

// bigints is the model of the functions that tell templates about big integers.
func (fs *flatSchema) bigints() string {
	has := map[string]bool{}
	entry := func(f PField) string {
		e, list := strings.CutPrefix(f.Type, "[]")
		suffix := ""
		if list {
			suffix = "[]"
		}
		if e == "bigint" {
			return f.Name + suffix
		}
		if has[e] {
			return "[" + f.Name + " " + e + suffix + "]"
		}
		return ""
	}
	for more := true; more; {
		more = false
		for _, d := range fs.Types {
			if d.Kind != "struct" || has[d.Name] {
				continue
			}
			for _, f := range d.Fields {
				if entry(f) != "" && !has[d.Name] {
					has[d.Name], more = true, true
				}
			}
		}
	}
	out := map[string]string{}
	put := func(name string, l []PField) {
		var o []string
		for _, f := range l {
			if e := entry(f); e != "" {
				o = append(o, e)
			}
		}
		if len(o) > 0 {
			out[name] = "[" + strings.Join(o, " ") + "]"
		}
	}
	uses := false
	for _, d := range fs.Types {
		if d.Kind == "struct" {
			put(d.Name, d.Fields)
		}
	}
	uses = len(out) > 0
	for _, d := range fs.Services {
		for _, m := range d.Methods {
			for _, f := range append(append([]PField(nil), m.In...), m.Out...) {
				uses = uses || entry(f) != ""
			}
			if !m.Succinct {
				put(m.Name+"Request", m.In)
				put(m.Name+"Response", m.Out)
			}
		}
	}
	var names []string
	for n := range out {
		names = append(names, n)
	}
	sort.Strings(names)
	s := fmt.Sprintf("bigints %v\n", uses)
	for _, n := range names {
		s += "bigint " + n + " " + out[n] + "\n"
	}
	return s
}

func cliText(fs *flatSchema, opts [][2]string, pad int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "schema %s %s %s\n", fs.Name, fs.Version, canonBase(fs.Base))
	for _, d := range fs.Types {
		kind := d.Kind
		if kind == "type" {
			kind = "alias"
		}
		fmt.Fprintf(&b, "%s %s %v %v %v\n", kind, d.Name, kind == "struct", kind == "enum", kind == "alias")
		if d.Kind == "type" {
			continue
		}
		for i, f := range d.Fields {
			v, t := "", f.Type
			if d.Kind == "enum" {
				t = ""
				if v = f.Value; v == "" {
					if v = fmt.Sprint(i); d.Type == "string" {
						v = f.Name
					}
				}
			}
			if t != "" {
				t += " " + fs.kindOf(t)
			}
			fmt.Fprintf(&b, "  %s %v %s %s\n", f.Name, f.Opt, v, t)
		}
	}
	for _, d := range fs.Errors {
		h := d.HTTP
		if h == 0 {
			h = 400
		}
		fmt.Fprintf(&b, "error %d %s %d %s\n", d.Code, d.Name, h, d.Msg)
	}
	for _, d := range fs.Services {
		fmt.Fprintf(&b, "service %s\n", d.Name)
		for _, m := range d.Methods {
			fmt.Fprintf(&b, "  %s %v %v", m.Name, m.StreamIn, m.StreamOut && len(m.Out) > 0)
			for _, a := range m.In {
				fmt.Fprintf(&b, " %s:%s:%s:%v", a.Name, a.Type, fs.kindOf(a.Type), a.Opt)
			}
			b.WriteString(" =>")
			for _, a := range m.Out {
				fmt.Fprintf(&b, " %s:%s:%s:%v", a.Name, a.Type, fs.kindOf(a.Type), a.Opt)
			}
			b.WriteString("\n")
		}
	}
	o := map[string]string{}
	var keys []string
	for _, x := range opts {
		if _, ok := o[x[0]]; !ok {
			keys = append(keys, x[0])
		}
		o[x[0]] = x[1]
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(&b, "opt %s=%s\n", k, o[k])
	}
	b.WriteString(fs.bigints())
	b.WriteString(cliTail(pad))
	return b.String()
}

// filtered is the model of the options that select parts of a schema. Tree shaking is only documented for types that
// selected or omitted services use, so types that no service uses are kept or not by keep.
func (c *cliRun) filtered(fs *flatSchema, env string, keep bool) *flatSchema {
	o := *fs
	if o.Base == "" && len(o.Services) > 0 {
		o.Base = "/rpc/"
	}
	if c.Version != "" {
		o.Version = c.Version
	} else if env != "" {
		o.Version = env
	}
	in := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	if len(c.Services) > 0 {
		used := [2]map[string]bool{{}, {}}
		for _, d := range o.Services {
			mark := used[0]
			if in(c.Services, d.Name) {
				mark = used[1]
			}
			var walk func(expr string)
			walk = func(expr string) {
				for _, n := range typeRefs(expr) {
					if mark[n] {
						continue
					}
					mark[n] = true
					if t := fs.find(n); t != nil {
						if t.Kind == "type" {
							walk(t.Type)
						}
						if t.Kind == "struct" {
							for _, f := range t.Fields {
								walk(f.Type)
							}
						}
					}
				}
			}
			for _, m := range d.Methods {
				for _, a := range append(append([]PField(nil), m.In...), m.Out...) {
					walk(a.Type)
				}
			}
		}
		if c.Shake {
			var l []*PDecl
			for _, d := range o.Types {
				if used[1][d.Name] || (keep && !used[0][d.Name]) {
					l = append(l, d)
				}
			}
			o.Types = l
		}
		var l []*PDecl
		for _, d := range o.Services {
			if in(c.Services, d.Name) {
				l = append(l, d)
			}
		}
		o.Services = l
	}
	sel := func(args []string, want bool) {
		var l []*PDecl
		for _, d := range o.Services {
			e := *d
			e.Methods = nil
			for _, m := range d.Methods {
				hit := false
				for _, a := range args {
					n, v, _ := strings.Cut(a, ":")
					for _, x := range m.Ann {
						if x[0] == n && (v == "" || x[1] == v) {
							hit = true
						}
					}
				}
				if hit == want {
					e.Methods = append(e.Methods, m)
				}
			}
			l = append(l, &e)
		}
		o.Services = l
	}
	if len(c.Match) > 0 {
		sel(c.Match, true)
	}
	if len(c.Ignore) > 0 {
		sel(c.Ignore, false)
	}
	return &o
}

var cliBads = []string{"noschema", "noimport", "garbage", "badtarget", "notmpl", "brokentmpl", "exectmpl", "nomain", "exittmpl", "panictmpl", "schemaflag", "targetflag", "arg", "both", "badann", "outdir", "outparent", "format"}

func genCli(r *rand.Rand, tier string) any {
	o := genOpts{Codegen: r.IntN(2) == 0, NoBasePath: r.IntN(4) == 0}
	if tier == "thorough" && r.IntN(4) == 0 {
		o.MaxFiles, o.MaxDecls = 8, 9
	}
	b := &cliBody{S: genBusySched(r), Proj: GenProject(r, o), Existing: map[string]int{}}
	if r.IntN(2) == 0 {
		b.Chunk = 1 + r.IntN(200)
	}
	if r.IntN(2) == 0 {
		b.DirChunk = 1 + r.IntN(3)
	}
	if r.IntN(3) == 0 {
		b.Pad = r.IntN(600)
	}
	if r.IntN(8) == 0 {
		b.Env = "v9.9.9"
	} else {
		b.EnvEmpty = r.IntN(8) == 0
	}
	if r.IntN(3) == 0 {
		b.SysLat = time.Duration(r.IntN(20)) * time.Millisecond
	}
	fs := b.Proj.Flatten(0)
	var svc []string
	var anns []string
	for _, d := range fs.Services {
		svc = append(svc, d.Name)
		for _, m := range d.Methods {
			for _, a := range m.Ann {
				anns = append(anns, a[0])
				if a[1] != "" && strings.TrimSpace(a[1]) == a[1] && !strings.ContainsAny(a[1], ",@\n\r") {
					anns = append(anns, a[0]+":"+a[1])
				}
			}
		}
	}
	outs := []string{"/work/out/api.gen.go", "gen.ts", "sub/dir/x.gen.go", "../up.txt", "/srv/new place/deep/er/client.ts", "./a/../b/z.txt", "/work/keep.txt"}
	n := 1
	if r.IntN(3) == 0 {
		n = 2 + r.IntN(2)
	}
	for _, slot := range r.Perm(3)[:n] {
		c := cliRun{Slot: slot, Cwd: pick(r, []string{"/work", "/work", "/", "/work/sub dir"}), JSON: r.IntN(4) == 0, Rel: r.IntN(2) == 0,
			Target: pick(r, []string{"dir", "dir", "dir", "dir", "json", "json", "golang", "typescript", "debug"}), Silent: r.IntN(3) == 0}
		c.Dir = pick(r, []string{"/work/tmpl", "/work/tmpl", "/work/t[m]pl", "/srv/te mp*", "/work/sub dir/tm?"})
		c.Fmt = pick(r, []string{"", "", "true", "false"})
		if r.IntN(3) > 0 {
			c.Out = outs[r.IntN(len(outs))]
			outs = append([]string(nil), outs...)
			for i, x := range outs {
				if x == c.Out {
					outs = append(outs[:i], outs[i+1:]...)
					break
				}
			}
		} else if r.IntN(3) == 0 {
			c.Out = "stdout"
		}
		if len(svc) > 0 && r.IntN(2) == 0 {
			for _, s := range svc {
				if r.IntN(2) == 0 {
					c.Services = append(c.Services, s)
				}
			}
			if r.IntN(4) == 0 {
				c.Services = append(c.Services, "Nobody")
			}
			r.Shuffle(len(c.Services), func(i, j int) { c.Services[i], c.Services[j] = c.Services[j], c.Services[i] })
			c.Shake = r.IntN(2) == 0
		}
		if len(anns) > 0 && r.IntN(3) == 0 {
			var l []string
			seen := map[string]bool{}
			for i := 0; i <= r.IntN(2); i++ {
				a := pick(r, anns)
				k, _, _ := strings.Cut(a, ":")
				if !seen[k] {
					seen[k] = true
					l = append(l, a)
				}
			}
			if r.IntN(2) == 0 {
				c.Match = l
			} else {
				c.Ignore = l
			}
		}
		if r.IntN(5) == 0 {
			c.Version = pick(r, []string{"v1.2.3", "0.0.1-x", "dev build"})
		}
		for i := r.IntN(4); i > 0; i-- {
			c.Opts = append(c.Opts, [2]string{pick(r, []string{"client", "server", "pkg", "x", "schemas", "service2", "o-p"}), pick(r, []string{"", "true", "main", "a=b", "x-y"})})
		}
		if c.Target == "golang" {
			c.Opts = append(c.Opts, [2]string{"pkg", "api"})
		}
		if r.IntN(6) == 0 {
			c.Bad = pick(r, cliBads)
		}
		if r.IntN(10) == 0 {
			c.Ask = pick(r, []string{"help", "help", "h", "version"})
			if c.Bad != "" {
				c.Bad = pick(r, []string{"badtarget", "notmpl", "brokentmpl", "exectmpl", "nomain", "panictmpl"})
			}
		}
		switch r.IntN(8) {
		case 0:
			c.StdoutTo = pick(r, []string{"full", "closed", "partial", "epipe"})
		case 1:
			c.Kill = time.Duration(1 + r.IntN(400)*1000000)
		}
		if r.IntN(2) == 0 {
			for i := 0; i <= r.IntN(2); i++ {
				c.Faults = append(c.Faults, cliFault(r, c.Out))
			}
		}
		if r.IntN(3) == 0 {
			c.Stale = 1 + r.IntN(12)
		}
		if r.IntN(4) == 0 {
			c.Links = r.IntN(32)
		}
		if r.IntN(2) == 0 {
			c.Delay = time.Duration(r.IntN(100)) * time.Millisecond
		}
		b.Runs = append(b.Runs, c)
	}
	for _, p := range []string{"/work/keep.txt", "/work/out/other.go", "/work/out/api.gen.go", "/work/gen.ts", "/up.txt", "/etc/passwd"} {
		if r.IntN(2) == 0 {
			b.Existing[p] = 1 + r.IntN(3000)
		}
	}
	for i := range b.Runs { // files whose names are near those of the outputs
		o := b.Runs[i].outPath()
		if o == "" || path.Dir(o) == "/" || strings.HasPrefix(o, "/work/plain/") {
			continue
		}
		if r.IntN(3) == 0 {
			base := strings.TrimSuffix(o, path.Ext(o))
			for _, p := range []string{o + ".tmp", o + "~", o + ".bak", o + ".new", o + ".old", path.Dir(o) + "/." + path.Base(o), path.Dir(o) + "/." + path.Base(o) + ".tmp", base + ".tmp", base + ".bak", path.Dir(o) + "/tmp", "/tmp/" + path.Base(o), "/tmp/" + path.Base(o) + ".tmp"} {
				if r.IntN(2) == 0 {
					b.Existing[p] = 1 + r.IntN(30)
				}
			}
		}
	}
	if r.IntN(3) == 0 {
		b.Edit = 1 + r.IntN(5)
	}
	return b
}

func cliFault(r *rand.Rand, out string) Fault {
	if (out == "" || out == "stdout") && r.IntN(3) == 0 {
		f := Fault{Class: "stdwrite", Nth: 1 + r.IntN(2), Kind: pick(r, []string{"ENOSPC", "EIO", "EACCES", "short", "EINTR", "torn", "crash"}), Arg: int64(r.IntN(300)), Sticky: r.IntN(3) == 0}
		if f.Kind == "short" {
			f.Arg++
			f.Nth = 1
			f.Sticky = false
		}
		return f
	}
	f := Fault{Class: pick(r, []string{"open", "read", "stat", "close", "readdir", "mkdir", "write", "write", "create", "getcwd", "any", "any", "mut", "mut"}),
		Nth: 1 + r.IntN(6), Kind: pick(r, []string{"EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT", "ENOMEM", "short", "EINTR", "stall", "crash", "crashafter", "torn", "closeloss"}), Arg: int64(r.IntN(3000)), Sticky: r.IntN(4) == 0}
	if f.Class == "any" {
		f.Nth = 1 + r.IntN(60)
	}
	switch f.Kind {
	case "short":
		f.Class = pick(r, []string{"read", "write"})
		f.Arg = 1 + int64(r.IntN(500))
	case "torn":
		f.Class = "write"
	case "closeloss":
		f.Class = "close"
		f.Nth = 1
		f.Path = path.Base(out)
	case "stall":
		f.Arg = int64(time.Millisecond) << r.IntN(19) // up to minutes
		f.Sticky = false
	case "EINTR":
		if f.Class == "any" || f.Class == "mut" {
			f.Class = pick(r, []string{"read", "open", "write"})
		}
	case "crash", "crashafter":
		f.Class = pick(r, []string{"any", "mut", "write", "create", "mkdir"})
	}
	if f.Class == "write" || f.Class == "create" {
		f.Nth = 1 + r.IntN(2)
	}
	if f.Path == "" && r.IntN(3) == 0 {
		f.Path = pick(r, []string{"tmpl", "t", "ridl", path.Base(out)})
		f.Nth = 1 + r.IntN(4)
	}
	return f
}

func (b *cliBody) clamp() {
	b.Proj.sanitize()
	used := map[int]bool{}
	outs := map[string]bool{}
	var l []cliRun
	for _, c := range b.Runs {
		if c.Slot < 0 || c.Slot > 2 || used[c.Slot] {
			continue
		}
		if c.Cwd == "" {
			c.Cwd = "/work"
		}
		if c.Dir == "" {
			c.Dir = "/work/tmpl"
		}
		if c.Target == "" {
			c.Target = "dir"
		}
		if o := c.outPath(); o != "" && outs[o] {
			continue
		}
		outs[c.outPath()] = true
		used[c.Slot] = true
		var sv []string
		for _, s := range c.Services {
			if s != "" {
				sv = append(sv, s)
			}
		}
		c.Services = sv
		if len(c.Match) > 0 {
			c.Ignore = nil
		}
		var op [][2]string
		for _, o := range c.Opts {
			if o[0] != "" {
				op = append(op, o)
			}
		}
		c.Opts = op
		if c.Target == "golang" && c.Bad != "format" {
			c.Opts = append(c.Opts, [2]string{"pkg", "api"})
		}
		l = append(l, c)
	}
	b.Runs = l
	b.Pad = max(0, min(b.Pad, 5000))
}

// outPath is the absolute output file, "" for standard output.
func (c *cliRun) outPath() string {
	if c.Bad == "outdir" {
		return "/work/out"
	}
	if c.Bad == "outparent" {
		return "/work/plain/x.go"
	}
	if c.Out == "" || c.Out == "stdout" {
		return ""
	}
	if strings.HasPrefix(c.Out, "/") {
		return path.Clean(c.Out)
	}
	return path.Join(c.Cwd, c.Out)
}

func (c *cliRun) args(b *cliBody, i int) []string {
	var a []string
	file := func(p string) string {
		if c.Rel {
			if p = relTo(c.Cwd, p); !strings.HasPrefix(p, ".") {
				p = "./" + p
			}
		}
		return p
	}
	root := b.Proj.Files[0].Path
	if c.JSON {
		root = "/work/schema.json"
	}
	switch c.Bad {
	case "noschema":
		root = path.Dir(root) + "/nosuch" + path.Ext(root)
	case "garbage", "noimport":
		root = fmt.Sprintf("%s/bad%d%s", path.Dir(root), i, path.Ext(root))
	}
	if c.Bad != "schemaflag" {
		a = append(a, "-schema="+file(root))
	}
	t := c.Target
	switch {
	case c.Bad == "badtarget":
		t = file("/work/no/such")
	case c.Bad == "notmpl" || c.Bad == "brokentmpl" || c.Bad == "exectmpl" || c.Bad == "nomain" || c.Bad == "exittmpl" || c.Bad == "panictmpl":
		t = file("/work/" + c.Bad)
	case c.Bad == "format":
		t = "golang"
	case t == "dir" && c.Links&16 != 0:
		t = file(fmt.Sprintf("/work/lnk%d", i))
	case t == "dir":
		t = file(c.Dir)
	}
	if c.Bad != "targetflag" {
		a = append(a, "-target="+t)
	}
	switch {
	case c.Bad == "outdir" || c.Bad == "outparent":
		a = append(a, "-out="+c.outPath())
	case c.Out != "":
		a = append(a, "-out="+c.Out)
	}
	for _, o := range c.Opts {
		a = append(a, "-"+o[0]+"="+o[1])
	}
	if len(c.Services) > 0 {
		a = append(a, "-service="+strings.Join(c.Services, ","))
	}
	if c.Shake {
		a = append(a, "-methodTreeShake")
	}
	if len(c.Match) > 0 {
		a = append(a, "-match=@"+strings.Join(c.Match, ",@"))
	}
	if len(c.Ignore) > 0 {
		a = append(a, "-ignore=@"+strings.Join(c.Ignore, ",@"))
	}
	if c.Version != "" {
		a = append(a, "-schemaVersion="+c.Version)
	}
	if c.Fmt != "" && c.Bad != "format" {
		a = append(a, "-fmt="+c.Fmt)
	}
	if c.Silent {
		a = append(a, "-silent")
	}
	switch c.Bad {
	case "arg":
		a = append(a, "stray")
	case "both":
		a = append(a, "-match=@a", "-ignore=@b")
	case "badann":
		a = append(a, "-match=plain")
	case "format":
		a = append(a, "-pkg=not a name")
	}
	if c.Ask != "" {
		a = append(a, "-"+c.Ask)
	}
	return a
}

// prepare puts the files of the scenario on the disk.
func (b *cliBody) prepare(w *World) {
	b.Proj.Write(w)
	fs := b.Proj.Flatten(0)
	w.WriteFile("/work/schema.json", fs.RenderJSON())
	w.MkdirAll("/work/sub dir")
	w.MkdirAll("/work/out")
	w.MkdirAll("/tmp")
	w.WriteFile("/work/plain", "a file\n")
	dirs := map[string]bool{"/work/tmpl": true}
	for i, c := range b.Runs {
		dirs[c.Dir] = true
		switch c.Bad {
		case "garbage":
			if c.JSON {
				t := fs.RenderJSON()
				w.WriteFile(fmt.Sprintf("/work/bad%d.json", i), t[:len(t)*2/3])
			} else {
				w.WriteFile(fmt.Sprintf("%s/bad%d.ridl", path.Dir(b.Proj.Files[0].Path), i), b.Proj.Render(0)+"\n}} ! stray\n")
			}
		case "noimport":
			if c.JSON { // the nearest thing: a type that is nowhere
				w.WriteFile(fmt.Sprintf("/work/bad%d.json", i), `{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"b","type":"Gone"}]}],"errors":[],"services":[]}`)
			} else {
				w.WriteFile(fmt.Sprintf("%s/bad%d.ridl", path.Dir(b.Proj.Files[0].Path), i), "webrpc = v1\nname = x\nversion = v1\n\nimport\n  - ./gone.ridl\n")
			}
		}
	}
	w.MkdirAll("/work/notmpl")
	w.WriteFile("/work/notmpl/readme.txt", "nothing")
	w.WriteFile("/work/brokentmpl/main.go.tmpl", cliTemplates["main.go.tmpl"])
	w.WriteFile("/work/brokentmpl/x.go.tmpl", `{{define "x"}}{{range`)
	w.WriteFile("/work/exectmpl/main.go.tmpl", `{{define "main"}}start {{template "gone" .}} end{{end}}`)
	w.WriteFile("/work/exittmpl/main.go.tmpl", `{{define "main"}}start {{stderrPrintf "cannot do %v\n" .SchemaName}}{{exit 3}} end{{end}}`)
	w.WriteFile("/work/panictmpl/main.go.tmpl", `{{define "main"}}start {{minVersion "none" "v0.1"}} end{{end}}`)
	w.WriteFile("/work/nomain/a.go.tmpl", `{{define "other"}}start{{end}}`)
	var names []string
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	for _, d := range names {
		for _, n := range []string{"main.go.tmpl", "type.go.tmpl", "zservice.go.tmpl"} {
			w.WriteFile(d+"/"+n, cliTemplates[n])
		}
		w.WriteFile(d+"/tail.go.tmpl", `{{define "tail"}}`+cliTail(b.Pad)+`{{end}}`)
		w.WriteFile(d+"/notes.txt", "{{ not a template")
	}
	for k, c := range b.Runs {
		if c.Links&16 != 0 {
			w.Symlink(c.Dir, fmt.Sprintf("/work/lnk%d", k))
		}
		for i, n := range []string{"main.go.tmpl", "type.go.tmpl", "zservice.go.tmpl", "tail.go.tmpl"} {
			p := path.Join(c.Dir, n)
			if real := "/store" + p + ".txt"; c.Links>>i&1 == 1 && !w.Exists(real) {
				text, _ := w.ReadFile(p)
				w.WriteFile(real, text)
				w.Symlink(real, p)
				w.Stats["event.linked_template"]++
			}
		}
	}
	var ex []string
	for p := range b.Existing {
		ex = append(ex, p)
	}
	sort.Strings(ex)
	for _, p := range ex {
		above := false // a directory of some output
		for i := range b.Runs {
			above = above || strings.HasPrefix(b.Runs[i].outPath(), p+"/")
		}
		if !w.Exists(p) && !above {
			w.WriteFile(p, strings.Repeat("old text\n", max(1, min(b.Existing[p], 10000))))
		}
	}
}

// output is what a run left as its output.
func (c *cliRun) output(w *World, p *Proc) (string, bool) {
	o := c.outPath()
	if c.help() {
		return string(p.Stderr), true
	}
	if o == "" || c.Ask != "" {
		s := string(p.Stdout)
		if !strings.HasSuffix(s, "\n") {
			return s, false
		}
		return s[:len(s)-1], true
	}
	return w.ReadFile(o)
}

func (c *cliRun) help() bool { return c.Ask == "help" || c.Ask == "h" }

// helpFails tells whether the text on standard error announces the help of a target and says nothing.
func helpFails(s string) bool {
	s = strings.TrimRight(s, " \n\t")
	return s == "" || strings.HasSuffix(strings.ToLower(s), "usage:") || strings.HasSuffix(s, "<nil>")
}

// complete judges an output against the model.
func (c *cliRun) complete(b *cliBody, got string) string {
	switch {
	case c.Ask == "version":
		if f := strings.Fields(got); len(f) < 2 || f[0] != "webrpc-gen" || len(f[1]) < 2 {
			return fmt.Sprintf("no version: %q", got)
		}
		return ""
	case c.help():
		if helpFails(got) {
			return "the help of the target is missing: " + trimText(got[max(0, len(got)-300):], 400)
		}
		if c.Target != "dir" {
			return ""
		}
		o := [][2]string{{"help", ""}}
		o = append(o, c.Opts...)
		sort.SliceStable(o, func(i, j int) bool { return o[i][0] < o[j][0] })
		var l []string
		for i, x := range o {
			if i+1 < len(o) && o[i+1][0] == x[0] {
				continue
			}
			l = append(l, fmt.Sprintf("  -%s=%s\n", x[0], x[1]))
		}
		if !strings.Contains(got, ":\n"+strings.Join(l, "")+cliTail(b.Pad)+"\n(end of help)") {
			return "the help of the target is missing: " + trimText(got[max(0, len(got)-300):], 400)
		}
		return ""
	}
	fs := b.Proj.Flatten(0)
	first := ""
	for _, keep := range []bool{false, true} {
		m := c.filtered(fs, b.Env, keep)
		want, have := "", got
		switch c.Target {
		case "dir":
			want = cliText(m, c.Opts, b.Pad)
		case "json":
			for _, d := range m.Services {
				if len(d.Methods) == 0 {
					return "" // not a schema that can be loaded
				}
			}
			want = m.Canon()
			s, err := schema.ParseSchemaJSON([]byte(got))
			if err != nil {
				return fmt.Sprintf("the JSON output is no schema: %v", err)
			}
			have = canonSchema(s, true)
		default:
			return ""
		}
		if have == want {
			return ""
		}
		if first == "" {
			first = diffText(want, have)
		}
		if !c.Shake {
			break
		}
	}
	return first
}

func execCli(bb any, res *Result) {
	b := bb.(*cliBody)
	b.clamp()
	if len(b.Runs) == 0 {
		return
	}
	var note []string
	for i, c := range b.Runs {
		s := strings.Join(c.args(b, i), " ")
		if c.StdoutTo != "" {
			s += " >" + c.StdoutTo
		}
		for _, f := range c.Faults {
			s += fmt.Sprintf(" [%s#%d %s]", f.Class, f.Nth, f.Kind)
		}
		note = append(note, s)
	}
	res.Note = b.Proj.note() + "; " + strings.Join(note, " | ")
	if b.Env != "" || b.EnvEmpty {
		os.Setenv("WEBRPC_SCHEMA_VERSION", b.Env)
		defer os.Unsetenv("WEBRPC_SCHEMA_VERSION")
	}
	const budget = 20_000_000
	// What each command does when nothing disturbs it.
	refs := make([]string, len(b.Runs))
	later := make([]string, len(b.Runs))
	b2 := b.edited()
	for k := 0; k < 2*len(b.Runs); k++ {
		i, b, refs := k, b, refs
		if i >= len(b.Runs) {
			if b2.Edit == 0 {
				break
			}
			i, b, refs = i-len(b.Runs), b2, later
		}
		c := &b.Runs[i]
		ref := &World{S: plainSched(), Budget: budget}
		out := RunWorld(ref, func(w *World) {
			b.prepare(w)
			p := w.SpawnMainNamed("ref", c.Slot, "webrpc-gen", c.args(b, i)...)
			p.Cwd = c.Cwd
			if !w.WaitAll(time.Hour, p) {
				res.Fail("hang", "webrpc-gen %q has not ended after an hour", p.Args[1:])
				return
			}
			if p.Panic != "" {
				res.Fail("panic", "webrpc-gen %q: %s", p.Args[1:], p.Panic)
				return
			}
			if c.Bad != "" && c.Ask == "" {
				if p.Exit == 0 {
					res.Fail("false-success", "webrpc-gen %q cannot succeed (%s), yet it exits with 0", p.Args[1:], c.Bad)
				} else if len(p.Stderr) == 0 {
					res.Fail("no-message", "webrpc-gen %q exits with %d without a message on standard error", p.Args[1:], p.Exit)
				}
				return
			}
			if p.Exit != 0 {
				res.Fail("false-failure", "webrpc-gen %q exits with %d without any fault: %s %s", p.Args[1:], p.Exit, trimText(string(p.Stderr), 300), trimText(string(p.Stdout), 1000))
				return
			}
			got, ok := c.output(w, p)
			if !ok {
				res.Fail("no-output", "webrpc-gen %q exits with 0 without output", p.Args[1:])
				return
			}
			if c.help() && c.Bad != "" {
				if helpFails(got) {
					res.Fail("no-message", "webrpc-gen %q does not say why it cannot show the help of the target: %s", p.Args[1:], trimText(got[max(0, len(got)-300):], 400))
				}
			} else if d := c.complete(b, got); d != "" {
				res.Fail("wrong-output", "webrpc-gen %q exits with 0, but its output is not what the schema and options say: %s", p.Args[1:], d)
			}
			refs[i] = got
		})
		res.add(ref, out)
		if res.Violation != "" {
			return
		}
	}
	var sum strings.Builder
	w := &World{S: b.S, ReadChunk: b.Chunk, DirChunk: b.DirChunk, MaxSysLat: b.SysLat, Budget: budget * 8}
	out := RunWorld(w, func(w *World) {
		b.prepare(w)
		for i := range b.Runs {
			if c := &b.Runs[i]; c.Stale > 0 && c.Bad == "" && c.Ask == "" && c.outPath() != "" {
				w.WriteFile(c.outPath(), c.stale(refs[i]))
				w.Stats["event.stale_output"]++
			}
		}
		before := w.Snapshot("/")
		outs := map[string]bool{}
		var procs []*Proc
		for i := range b.Runs {
			c := &b.Runs[i]
			outs[c.outPath()] = true
			name := fmt.Sprintf("gen%d", i)
			for _, f := range c.Faults {
				g := f
				g.Proc = name
				w.Faults = append(w.Faults, &g)
			}
			if c.Delay > 0 {
				time.Sleep(c.Delay)
			}
			p := w.SpawnMainNamed(name, c.Slot, "webrpc-gen", c.args(b, i)...)
			p.Cwd, p.StdoutTo = c.Cwd, c.StdoutTo
			procs = append(procs, p)
			if c.Kill > 0 {
				time.AfterFunc(c.Kill, func() { w.Kill(p) })
			}
		}
		judge := func(i int, p *Proc, faulty bool) {
			c := &b.Runs[i]
			hard, stderrHit := p.Crashed, false
			if faulty {
				for _, f := range w.Faults {
					if f.Proc == p.Name && f.Fired() {
						if !softFault(f) {
							hard = true
						}
						if f.Class == "stdwrite" || f.Class == "any" {
							stderrHit = true
						}
					}
				}
				if c.StdoutTo != "" {
					hard = true
				}
			}
			fmt.Fprint(&sum, c.Target, c.Bad, hard, p.Exit, p.Crashed, " ")
			if p.Panic != "" {
				res.Fail("panic", "webrpc-gen %q: %s", p.Args[1:], p.Panic)
				return
			}
			if p.Crashed || p.Exit == 141 && faulty && c.StdoutTo == "epipe" { // killed, or ended by SIGPIPE
				res.Count("runs_crashed", 1)
				return
			}
			if p.Exit == 0 {
				res.Count("runs_exit_0", 1)
				if c.help() {
					if stderrHit {
						return
					}
					if hard && !helpFails(string(p.Stderr)) {
						return
					}
				} else if c.Bad != "" && c.Ask == "" {
					res.Fail("false-success", "webrpc-gen %q cannot succeed (%s), yet it exits with 0", p.Args[1:], c.Bad)
					return
				}
				if got, ok := c.output(w, p); !ok || got != refs[i] {
					res.Fail("incomplete-output", "webrpc-gen %q exits with 0, but its output is not complete: %s", p.Args[1:], diffText(refs[i], got))
				}
				return
			}
			res.Count("runs_failed", 1)
			if len(p.Stderr) == 0 && !stderrHit {
				res.Fail("no-message", "webrpc-gen %q exits with %d without a message on standard error", p.Args[1:], p.Exit)
			}
			if !hard && c.Bad == "" {
				res.Fail("false-failure", "webrpc-gen %q exits with %d although nothing it needed failed: %s", p.Args[1:], p.Exit, trimText(string(p.Stderr), 300))
			}
		}
		for i, p := range procs {
			if !w.WaitAll(time.Hour, p) {
				res.Fail("hang", "webrpc-gen %q has not ended after an hour", p.Args[1:])
				return
			}
			_ = i
		}
		for i, p := range procs {
			judge(i, p, true)
		}
		unchanged := func() {
			after := w.Snapshot("/")
			var names []string
			for n := range before {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				if outs[n] || strings.HasPrefix(n, "/tmp/webrpc-cache") {
					continue
				}
				if now, ok := after[n]; !ok {
					res.Fail("file-removed", "%s is gone", n)
				} else if now != before[n] {
					res.Fail("file-changed", "%s was changed: %s", n, diffText(before[n], now))
				}
			}
		}
		unchanged()
		// Once the faults are gone every command does its work.
		w.Faults = nil
		for i := range b.Runs {
			if res.Violation != "" {
				return
			}
			c := &b.Runs[i]
			p := w.SpawnMainNamed(fmt.Sprintf("again%d", i), c.Slot, "webrpc-gen", c.args(b, i)...)
			p.Cwd = c.Cwd
			if !w.WaitAll(time.Hour, p) {
				res.Fail("hang", "webrpc-gen %q has not ended after an hour", p.Args[1:])
				return
			}
			judge(i, p, false)
		}
		unchanged()
		// The same commands over their own output, after a change of what they read.
		if b.Edit == 0 || res.Violation != "" {
			return
		}
		b2.prepare(w)
		copy(refs, later)
		res.Count("reruns_after_edit", len(b.Runs))
		for i := range b.Runs {
			c := &b.Runs[i]
			p := w.SpawnMainNamed(fmt.Sprintf("edited%d", i), c.Slot, "webrpc-gen", c.args(b2, i)...)
			p.Cwd = c.Cwd
			if !w.WaitAll(time.Hour, p) {
				res.Fail("hang", "webrpc-gen %q has not ended after an hour", p.Args[1:])
				return
			}
			judge(i, p, false)
		}
	})
	res.add(w, out)
	res.NoteState(sum.String())
}

func init() {
	register(&Scenario{Prop: "C12", Gen: genCli, New: func() any { return &cliBody{} }, Exec: execCli, Shrink: autoShrink,
		Real: realGen + "; cmd/webrpc-gen", Stub: stubGen,
		Rule: "One to three webrpc-gen processes with random options, targets and output places on one simulated machine, with faults of any system call including standard output, torn writes, crashes and kills; then each command again without faults. Output is compared with a model of the schema and its filters and with an undisturbed run. A run is non-trivial when a fault fired, processes overlapped or the command had to fail."})
}
