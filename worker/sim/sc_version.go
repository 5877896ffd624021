package sim

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"os/exec"
	"slices"
	"strings"
	"time"
)

// The scenario of C16: how the tools find out their version, with every outcome of the helper commands.

type verAnswer struct {
	Kind  string // ok, fail (exit status), killed, absent, nostart
	Out   string
	Delay time.Duration
}

type verRun struct {
	Slot   int
	Tool   string // gen, test, render, file
	Go     verAnswer
	Git    verAnswer
	Link   string
	Faults []Fault
}

type verBody struct {
	S      Sched
	Runs   []verRun
	SysLat time.Duration
}

func genVerAnswer(r *rand.Rand) verAnswer {
	a := verAnswer{Kind: pick(r, []string{"ok", "ok", "ok", "fail", "killed", "absent", "nostart"})}
	switch a.Kind {
	case "ok", "fail", "killed":
		a.Out = pick(r, []string{"", "\n", " \t\n", "\r\n", "\n\n", "v0.22.0\n", "v0.22.0", "v0.15.1-6-g550333d\n", " v1.0.0 \n", "v2.3.4\r\n", "(devel)\n", "v1.2.3 (dirty)\n", "v0.0.0-20240101000000-abcdefabcdef\n", "unknown\n"})
	}
	if r.IntN(4) == 0 {
		a.Delay = time.Duration(r.IntN(20000)) * time.Millisecond
	}
	return a
}

func genVersion(r *rand.Rand, tier string) any {
	b := &verBody{S: genBusySched(r)}
	n := 1 + r.IntN(3)
	for _, slot := range r.Perm(3)[:n] {
		v := verRun{Slot: slot, Tool: pick(r, []string{"gen", "test", "render", "file"}), Go: genVerAnswer(r), Git: genVerAnswer(r)}
		if r.IntN(4) == 0 {
			v.Link = pick(r, []string{"v7.7.7", "v0.1.0-dirty", "custom build"})
		}
		for i := r.IntN(3); i > 0; i-- {
			v.Faults = append(v.Faults, Fault{Class: pick(r, []string{"stat", "stat", "getcwd"}), Nth: 1 + r.IntN(4), Kind: pick(r, []string{"EIO", "EACCES", "ENOENT", "ENOMEM"}), Sticky: r.IntN(3) == 0})
		}
		b.Runs = append(b.Runs, v)
	}
	if r.IntN(3) == 0 {
		b.SysLat = time.Duration(r.IntN(50)) * time.Millisecond
	}
	return b
}

// git is the answer to a command line: a is that to "git describe --tags" in a working tree with changes, where
// only lightweight tags may exist.
func (a verAnswer) git(args []string) verAnswer {
	has := func(s string) bool { return slices.Contains(args, s) }
	if a.Kind == "killed" || a.Kind == "absent" || a.Kind == "nostart" {
		return a
	}
	text := strings.TrimSpace(a.Out)
	tag, _, distant := strings.Cut(text, "-g")
	if i := strings.LastIndex(tag, "-"); distant && i > 0 {
		tag = tag[:i]
	}
	switch {
	case !has("describe"):
		a = verAnswer{Kind: "ok", Out: "550333d0a6a9f4f5be8fb6c8ff63e57f8d4b0f2c\n", Delay: a.Delay}
	case (a.Kind == "fail" || text == "" || !has("--tags") || has("--exact-match") && distant) && has("--always"):
		a = verAnswer{Kind: "ok", Out: "550333d\n", Delay: a.Delay}
	case a.Kind == "fail" || text == "":
	case !has("--tags") && !has("--all") || has("--exact-match") && distant:
		a = verAnswer{Kind: "fail", Delay: a.Delay}
	case has("--abbrev=0"):
		a.Out = tag + "\n"
	case has("--long") && !distant:
		a.Out = text + "-0-g550333d\n"
	case has("--all"):
		a.Out = "heads/main\n"
	case has("--dirty"):
		a.Out = text + "-dirty\n"
	}
	return a
}

// list is the answer to a command line: a is that to "go list -m -f {{.Version}} github.com/webrpc/webrpc".
func (a verAnswer) list(args []string) verAnswer {
	has := func(s string) bool { return slices.Contains(args, s) }
	if a.Kind == "killed" || a.Kind == "absent" || a.Kind == "nostart" {
		return a
	}
	switch {
	case !has("-m"): // a package, of the main module if anything
		a = verAnswer{Kind: "ok", Out: "\n", Delay: a.Delay}
	case !has("github.com/webrpc/webrpc") && !has("all"): // the main module
		a = verAnswer{Kind: "ok", Out: "\n", Delay: a.Delay}
	case !has("-f") && strings.TrimSpace(a.Out) != "":
		a.Out = "github.com/webrpc/webrpc " + a.Out
	}
	return a
}

func (a verAnswer) run(deadline int64) ([]byte, []byte, int, error) {
	if deadline > 0 {
		// The tool stops waiting: the command is killed before it prints anything.
		if left := time.Until(time.Unix(0, deadline)); left < a.Delay {
			time.Sleep(left)
			return nil, nil, 0, errors.New("signal: killed")
		}
	}
	time.Sleep(a.Delay)
	switch a.Kind {
	case "ok":
		return []byte(a.Out), nil, 0, nil
	case "fail":
		return []byte(a.Out), []byte("fatal: it failed\n"), 128, nil
	case "killed":
		return []byte(a.Out), nil, 0, errors.New("signal: killed")
	case "nostart":
		return nil, nil, 0, errors.New("fork/exec: resource temporarily unavailable")
	}
	return nil, nil, 0, &exec.Error{Name: "helper", Err: exec.ErrNotFound}
}

// accepted lists what the tool may report.
func (v verRun) accepted() []string {
	if v.Link != "" {
		return []string{v.Link}
	}
	var l []string
	for _, a := range []verAnswer{v.Go, v.Git} {
		t := strings.TrimSpace(a.Out)
		if t == "" {
			continue
		}
		l = append(l, t)
		if a.Kind == "ok" {
			return l
		}
		// What a command printed before it failed may be taken or left.
	}
	return append(l, "unknown")
}

func execVersion(bb any, res *Result) {
	b := bb.(*verBody)
	used := map[int]bool{}
	w := &World{S: b.S, MaxSysLat: b.SysLat, Budget: 8_000_000}
	var sum strings.Builder
	var note []string
	out := RunWorld(w, func(w *World) {
		w.WriteFile("/work/api.ridl", "webrpc = v1\nname = api\nversion = v0.1.0\nbasepath = /rpc\n\nservice A\n  - Ping()\n")
		w.WriteFile("/work/tmpl/main.go.tmpl", `{{define "main"}}version [{{.WebrpcGenVersion}}]{{end}}`)
		w.MkdirAll("/tmp")
		w.WriteFile("/usr/bin/git", "")
		type started struct {
			v verRun
			p *Proc
		}
		var all []started
		for i, v := range b.Runs {
			if v.Slot < 0 || v.Slot > 2 || used[v.Slot] {
				continue
			}
			used[v.Slot] = true
			name := fmt.Sprintf("tool%d", i)
			for _, f := range v.Faults {
				if v.Tool == "render" || v.Tool == "file" {
					f.Class = "stat" // the others are the subject of C12
					f.Path = "bin/"
				}
				f.Proc = name
				w.Faults = append(w.Faults, &f)
			}
			prog, args := "webrpc-gen", []string{"-version"}
			switch v.Tool {
			case "test":
				prog = "webrpc-test"
			case "render":
				args = []string{"-schema=/work/api.ridl", "-target=/work/tmpl"}
			case "file":
				args = []string{"-schema=/work/api.ridl", "-target=/work/tmpl", fmt.Sprintf("-out=/work/out%d.txt", i)}
			}
			note = append(note, fmt.Sprintf("%s link=%q go=%s %q git=%s %q", v.Tool, v.Link, v.Go.Kind, v.Go.Out, v.Git.Kind, v.Git.Out))
			p := w.SpawnMainNamed(name, v.Slot, prog, args...)
			p.Cwd = "/work"
			if v.Link != "" {
				p.Link = map[string]string{". VERSION": v.Link}
			}
			v := v
			p.Exec = func(base string, args []string, deadline int64) ([]byte, []byte, int, error) {
				var a verAnswer
				switch {
				case base == "git":
					a = v.Git.git(args)
				case base == "go" && len(args) > 1 && args[1] == "list":
					a = v.Go.list(args)
				default:
					return nil, nil, 0, &exec.Error{Name: base, Err: exec.ErrNotFound}
				}
				w.Stats["helper."+a.Kind]++
				return a.run(deadline)
			}
			all = append(all, started{v, p})
		}
		for i, x := range all {
			v, p := x.v, x.p
			if !w.WaitAll(time.Hour, p) {
				res.Fail("hang", "%s %q has not ended after an hour", v.Tool, p.Args)
				return
			}
			if p.Panic != "" {
				res.Fail("panic", "%q: %s", p.Args, p.Panic)
				return
			}
			if p.Exit != 0 {
				res.Fail("version-crash", "%q exits with %d: %s", p.Args, p.Exit, trimText(string(p.Stderr), 300))
				return
			}
			var got []string
			text := string(p.Stdout)
			switch v.Tool {
			case "gen":
				got = append(got, between(text, "webrpc-gen ", "\n"))
			case "test":
				got = append(got, between(text, "webrpc-test ", "\n"))
			case "render":
				got = append(got, between(text, "version [", "]"))
			case "file":
				t, _ := w.ReadFile(p.Args[3][len("-out="):])
				got = append(got, between(t, "version [", "]"), between(text, "webrpc-gen version : ", "\n"))
			}
			for _, g := range got {
				ok := false
				for _, a := range v.accepted() {
					ok = ok || a == g
				}
				if !ok {
					res.Fail("wrong-version", "%s reports version %q, expected one of %q (%s)", v.Tool, g, v.accepted(), note[i])
					return
				}
				fmt.Fprint(&sum, v.Tool, v.Go.Kind, v.Git.Kind, g, " ")
			}
		}
	})
	res.Note = strings.Join(note, "; ")
	res.add(w, out)
	res.NoteState(sum.String())
}

// between is the text between two marks, which includes surrounding white space.
func between(s, a, z string) string {
	i := strings.Index(s, a)
	if i < 0 {
		return ""
	}
	s = s[i+len(a):]
	if j := strings.Index(s, z); j >= 0 {
		s = s[:j]
	}
	return s
}

func init() {
	register(&Scenario{Prop: "C16", Gen: genVersion, New: func() any { return &verBody{} }, Exec: execVersion, Shrink: autoShrink,
		Real: realGen + "; cmd/webrpc-gen, cmd/webrpc-test, version.go", Stub: "the processes of go and git (every outcome: answer, empty answer, exit status, killed, absent, not started, slow); " + stubGen,
		Rule: "One to three tools start at the same time, each with its own outcomes of the helper commands and faults while they are looked up; the version they report is compared with the fallback chain."})
}
