package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

const modPath = "github.com/webrpc/webrpc"
const virtDir = "zz_dst"

// streamDir holds generated code with streams.
const streamDir = "_examples/webrpc-streaming/proto"

// Slots are independent copies of webrpc inside the worker: one simulated process runs the copy of one slot, so
// package level state is never shared between processes that live at the same time.
const slots = 3

type builder struct {
	repo, verif, goroot string
	out                 string            // directory that receives generated sources
	overlay             map[string]string // virtual path -> real path
	sites               []string          // tick sites
	stats               map[string]int
}

func (b *builder) put(virtual string, data []byte) error {
	real := filepath.Join(b.out, "src", strings.ReplaceAll(strings.TrimPrefix(virtual, "/"), "/", "~"))
	if err := os.MkdirAll(filepath.Dir(real), 0o755); err != nil {
		return err
	}
	b.overlay[virtual] = real
	return os.WriteFile(real, data, 0o644)
}

// stdlib writes the patched runtime and library files.
func (b *builder) stdlib() error {
	for name, edits := range stdPatches {
		path := filepath.Join(b.goroot, "src", name)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		s := string(src)
		for _, e := range edits {
			if n := strings.Count(s, e.old); n != 1 && !(e.old == "import (\n" && n >= 1) {
				return fmt.Errorf("anchor occurs %d times in %s: %q", n, name, e.old)
			}
			s = strings.Replace(s, e.old, e.new, 1)
		}
		if err := b.put(path, []byte(s)); err != nil {
			return err
		}
	}
	for name, src := range stdAdded {
		b.overlay[filepath.Join(b.goroot, "src", name)] = filepath.Join(b.verif, "worker", src)
	}
	return nil
}

type repoPkg struct {
	dir   string // relative to the repository root
	files []string
}

// packages lists the directories of the main module that hold Go sources.
func (b *builder) packages() ([]repoPkg, error) {
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH, ctx.CgoEnabled = "linux", "amd64", false
	byDir := map[string][]string{}
	err := filepath.WalkDir(b.repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(b.repo, path)
		name := d.Name()
		if d.IsDir() {
			if rel == "." {
				return nil
			}
			if strings.HasPrefix(name, "_") || strings.HasPrefix(name, ".") || name == "testdata" || name == "node_modules" || name == virtDir {
				return filepath.SkipDir
			}
			if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		ok, err := ctx.MatchFile(filepath.Dir(path), name)
		if err != nil || !ok {
			return nil
		}
		dir := filepath.Dir(rel)
		byDir[dir] = append(byDir[dir], name)
		return nil
	})
	if err != nil {
		return nil, err
	}
	// generated code of an example, a module of its own that needs only the library
	entries, err := os.ReadDir(filepath.Join(b.repo, streamDir))
	if err != nil {
		return nil, err
	}
	for _, e := range entries {
		if n := e.Name(); strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			byDir[streamDir] = append(byDir[streamDir], n)
		}
	}
	var out []repoPkg
	for dir, files := range byDir {
		sort.Strings(files)
		out = append(out, repoPkg{dir, files})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].dir < out[j].dir })
	return out, nil
}

type textEdit struct {
	pos, end int
	text     string
}

func applyEdits(src []byte, edits []textEdit) []byte {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].pos < edits[j].pos })
	var out bytes.Buffer
	at := 0
	for _, e := range edits {
		out.Write(src[at:e.pos])
		out.WriteString(e.text)
		at = e.end
	}
	out.Write(src[at:])
	return out.Bytes()
}

var embedRx = regexp.MustCompile(`(?m)^//go:embed[ \t]+(.*)$`)

type nullImporter struct{}

func (nullImporter) Import(path string) (*types.Package, error) {
	name := path[strings.LastIndex(path, "/")+1:]
	p := types.NewPackage(path, name)
	p.MarkComplete()
	return p, nil
}

// copyPackage writes the instrumented copy of one package for one slot.
func (b *builder) copyPackage(p repoPkg, slot int, known map[string]bool) error {
	fset := token.NewFileSet()
	virt := filepath.Join(b.repo, virtDir, "p"+strconv.Itoa(slot), p.dir)
	type fileInfo struct {
		name string
		src  []byte
		ast  *ast.File
		ed   []textEdit
		tail strings.Builder
	}
	var files []*fileInfo
	var asts []*ast.File
	byAst := map[*ast.File]*fileInfo{}
	for _, name := range p.files {
		src, err := os.ReadFile(filepath.Join(b.repo, p.dir, name))
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, filepath.Join(p.dir, name), src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		fi := &fileInfo{name: name, src: src, ast: f}
		files = append(files, fi)
		asts = append(asts, f)
		byAst[f] = fi
	}
	if len(files) == 0 {
		return nil
	}
	pkgName := files[0].ast.Name.Name
	conf := types.Config{Importer: nullImporter{}, Error: func(error) {}, IgnoreFuncBodies: false, DisableUnusedImportCheck: true}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}}
	conf.Check(modPath+"/"+p.dir, fset, asts, info)

	off := func(pos token.Pos) int { return fset.Position(pos).Offset }
	var resets []string // calls in order
	inits := 0
	varFn := map[ast.Spec]string{}
	for fileNo, fi := range files {
		f := fi.ast
		// package clause
		newName := f.Name.Name
		if newName == "main" {
			newName = "dstmain"
		}
		fi.ed = append(fi.ed, textEdit{off(f.Name.Pos()), off(f.Name.End()), newName + `; import dstrt "archive"`})
		osName := ""
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == "os" {
				osName = "os"
				if im.Name != nil {
					osName = im.Name.Name
				}
			}
			if path == modPath || strings.HasPrefix(path, modPath+"/") {
				rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
				if rel == "" {
					rel = "."
				}
				if known[rel] {
					np := modPath + "/" + virtDir + "/p" + strconv.Itoa(slot)
					if rel != "." {
						np += "/" + rel
					}
					text := strconv.Quote(np)
					if im.Name == nil && rel == "." {
						text = "webrpc " + text
					}
					fi.ed = append(fi.ed, textEdit{off(im.Path.Pos()), off(im.Path.End()), text})
				}
			}
		}
		lhs := map[ast.Expr]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			body := func(bl *ast.BlockStmt) {
				if bl == nil {
					return
				}
				id := len(b.sites)
				b.sites = append(b.sites, fset.Position(bl.Lbrace).String())
				at := off(bl.Lbrace) + 1
				fi.ed = append(fi.ed, textEdit{at, at, fmt.Sprintf("dstrt.Tick(%d);", id)})
			}
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, e := range n.Lhs {
					lhs[e] = true
				}
			case *ast.FuncDecl:
				body(n.Body)
			case *ast.FuncLit:
				body(n.Body)
			case *ast.ForStmt:
				body(n.Body)
			case *ast.RangeStmt:
				body(n.Body)
			case *ast.SelectorExpr:
				if id, ok := n.X.(*ast.Ident); ok && osName != "" && id.Name == osName && n.Sel.Name == "Args" && !lhs[n] {
					fi.ed = append(fi.ed, textEdit{off(n.Pos()), off(n.End()), "dstrt.Args(" + osName + ".Args)"})
				}
			}
			return true
		})
		// embedded files
		for _, m := range embedRx.FindAllSubmatchIndex(fi.src, -1) {
			pats := strings.Fields(string(fi.src[m[2]:m[3]]))
			changed := false
			for i, pat := range pats {
				pat = strings.Trim(pat, "\"`")
				if filepath.Base(pat) == "go.mod" {
					data, err := os.ReadFile(filepath.Join(b.repo, p.dir, pat))
					if err != nil {
						return err
					}
					pats[i] = "dst_gomod.txt"
					changed = true
					if err := b.put(filepath.Join(virt, "dst_gomod.txt"), data); err != nil {
						return err
					}
					continue
				}
				matches, _ := filepath.Glob(filepath.Join(b.repo, p.dir, strings.TrimPrefix(pat, "all:")))
				for _, match := range matches {
					filepath.WalkDir(match, func(path string, d os.DirEntry, err error) error {
						if err == nil && !d.IsDir() {
							rel, _ := filepath.Rel(filepath.Join(b.repo, p.dir), path)
							b.overlay[filepath.Join(virt, rel)] = path
						}
						return nil
					})
				}
			}
			if changed {
				fi.ed = append(fi.ed, textEdit{m[2], m[3], strings.Join(pats, " ")})
			}
		}
		// package level state
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					inits++
					fi.ed = append(fi.ed, textEdit{off(d.Name.Pos()), off(d.Name.End()), fmt.Sprintf("dstInit%d", inits)})
					fmt.Fprintf(&fi.tail, "func init() { dstInit%d() }\n", inits)
				}
				if d.Recv == nil && d.Name.Name == "main" && pkgName == "main" {
					fi.ed = append(fi.ed, textEdit{off(d.Name.Pos()), off(d.Name.End()), "DSTMain"})
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for specNo, s := range d.Specs {
					s := s.(*ast.ValueSpec)
					hasEmbed := false
					for _, cg := range []*ast.CommentGroup{d.Doc, s.Doc} {
						if cg != nil {
							for _, c := range cg.List {
								if strings.HasPrefix(c.Text, "//go:embed") {
									hasEmbed = true
								}
							}
						}
					}
					allBlank := true
					var names []string
					for _, n := range s.Names {
						names = append(names, n.Name)
						if n.Name != "_" {
							allBlank = false
						}
					}
					if hasEmbed || allBlank {
						continue
					}
					text := func(n ast.Node) string {
						// Apply the rewriting of os.Args inside initialisers as well.
						a, z := off(n.Pos()), off(n.End())
						var ed []textEdit
						for _, e := range fi.ed {
							if e.pos >= a && e.end <= z {
								ed = append(ed, textEdit{e.pos - a, e.end - a, e.text})
							}
						}
						return string(applyEdits(append([]byte(nil), fi.src[a:z]...), ed))
					}
					// As with the -X option of the linker: string variables without initialiser, or with a constant one.
					linkable := func(w io.Writer, s *ast.ValueSpec, names []string) {
						for i, n := range names {
							o, _ := info.Defs[s.Names[i]].(*types.Var)
							if n == "_" || o == nil || o.Type() != types.Typ[types.String] {
								continue
							}
							if len(s.Values) > 0 && (i >= len(s.Values) || info.Types[s.Values[i]].Value == nil) {
								continue
							}
							fmt.Fprintf(w, "; if v, ok := dstrt.LinkVar(%q, %q); ok { %s = v }", p.dir, n, n)
						}
					}
					fn := fmt.Sprintf("dstVar%d_%d_%d", fileNo, off(d.Pos()), specNo)
					varFn[s] = fn
					if len(s.Values) == 0 {
						fmt.Fprintf(&fi.tail, "func %s() { var z %s; _ = z", fn, text(s.Type))
						for _, n := range names {
							if n != "_" {
								fmt.Fprintf(&fi.tail, "; %s = z", n)
							}
						}
						linkable(&fi.tail, s, names)
						fmt.Fprintf(&fi.tail, " }\n")
					} else {
						var vals []string
						for _, v := range s.Values {
							vals = append(vals, text(v))
						}
						fmt.Fprintf(&fi.tail, "func %s() { %s = %s", fn, strings.Join(names, ", "), strings.Join(vals, ", "))
						linkable(&fi.tail, s, names)
						fmt.Fprintf(&fi.tail, " }\n")
					}
				}
			}
		}
	}
	// Variables without initialiser first, then in initialisation order. IgnoreFuncBodies must be off for the order to
	// take references from functions into account.
	seen := map[string]bool{}
	call := func(fn string) {
		if fn != "" && !seen[fn] {
			seen[fn] = true
			resets = append(resets, fn)
		}
	}
	specOf := map[string]ast.Spec{}
	for _, f := range asts {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					for _, n := range vs.Names {
						if n.Name != "_" {
							specOf[n.Name] = s
						}
					}
					if len(vs.Values) == 0 {
						call(varFn[s])
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			call(varFn[specOf[l.Name()]])
		}
	}
	for _, f := range asts {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					call(varFn[s])
				}
			}
		}
	}
	for i := 1; i <= inits; i++ {
		call(fmt.Sprintf("dstInit%d", i))
	}
	for _, fi := range files {
		src := applyEdits(fi.src, fi.ed)
		src = append(src, []byte("\nvar _ = dstrt.Tick\n"+fi.tail.String())...)
		if err := b.put(filepath.Join(virt, fi.name), src); err != nil {
			return err
		}
	}
	name := pkgName
	extra := ""
	if name == "main" {
		name = "dstmain"
		extra = fmt.Sprintf("\tdstrt.RegisterMain(%d, %q, DSTMain)\n", slot, filepath.Base(p.dir))
	}
	var reg bytes.Buffer
	fmt.Fprintf(&reg, "package %s\n\nimport dstrt \"archive\"\n\nfunc init() {\n\tdstrt.RegisterReset(%d, %q, func() {\n", name, slot, p.dir)
	for _, r := range resets {
		fmt.Fprintf(&reg, "\t\t%s()\n", r)
	}
	fmt.Fprintf(&reg, "\t})\n%s}\n", extra)
	return b.put(filepath.Join(virt, "zz_dst_reg.go"), reg.Bytes())
}

func runGo(dir string, env []string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.CombinedOutput()
	return string(out), err
}

func hashTree(h interface{ Write([]byte) (int, error) }, root string, keep func(rel string, d os.DirEntry) bool) error {
	return filepath.WalkDir(root, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, path)
		if d.IsDir() {
			if rel != "." && (strings.HasPrefix(d.Name(), ".") || d.Name() == "node_modules" || strings.HasPrefix(rel, "_") && !strings.HasPrefix(streamDir, rel)) {
				return filepath.SkipDir
			}
			return nil
		}
		if !keep(rel, d) {
			return nil
		}
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fmt.Fprintf(h.(interface {
			Write([]byte) (int, error)
		}), "%s %d\n", rel, len(data))
		h.Write(data)
		return nil
	})
}

// buildWorker builds the simulator from the working tree of the repository and returns the path of the binary.
func buildWorker(repo, verif string, race bool) (string, map[string]any, error) {
	start := time.Now()
	gorootOut, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", nil, fmt.Errorf("go env GOROOT: %w", err)
	}
	goroot := strings.TrimSpace(string(gorootOut))
	h := sha256.New()
	fmt.Fprintf(h, "%s race=%v\n", goroot, race)
	for _, dir := range []string{repo, filepath.Join(verif, "worker"), filepath.Join(verif, "dst"), filepath.Join(verif, "stubs")} {
		if err := hashTree(h, dir, func(rel string, d os.DirEntry) bool { return d.Type().IsRegular() }); err != nil {
			return "", nil, err
		}
	}
	key := hex.EncodeToString(h.Sum(nil))[:20]
	out := filepath.Join(verif, ".build", key)
	bin := filepath.Join(out, "worker")
	meta := map[string]any{}
	metaPath := filepath.Join(out, "meta.json")
	if data, err := os.ReadFile(metaPath); err == nil {
		if _, err := os.Stat(bin); err == nil {
			json.Unmarshal(data, &meta)
			meta["cached"] = true
			return bin, meta, nil
		}
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return "", nil, err
	}
	b := &builder{repo: repo, verif: verif, goroot: goroot, out: out, overlay: map[string]string{}, stats: map[string]int{}}
	if err := b.stdlib(); err != nil {
		return "", nil, err
	}
	pkgs, err := b.packages()
	if err != nil {
		return "", nil, err
	}
	known := map[string]bool{}
	for _, p := range pkgs {
		known[p.dir] = true
	}
	for slot := 0; slot < slots; slot++ {
		for _, p := range pkgs {
			if err := b.copyPackage(p, slot, known); err != nil {
				return "", nil, fmt.Errorf("instrumenting %s: %w", p.dir, err)
			}
		}
	}
	// Simulator sources.
	for _, dir := range []string{"sim", "cmd"} {
		ents, err := os.ReadDir(filepath.Join(verif, "worker", dir))
		if err != nil {
			return "", nil, err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				b.overlay[filepath.Join(repo, virtDir, dir, e.Name())] = filepath.Join(verif, "worker", dir, e.Name())
			}
		}
	}
	var imp bytes.Buffer
	fmt.Fprintf(&imp, "package main\n\nimport (\n")
	for slot := 0; slot < slots; slot++ {
		for _, p := range pkgs {
			if strings.HasPrefix(p.dir, "cmd/") {
				fmt.Fprintf(&imp, "\t_ %q\n", modPath+"/"+virtDir+"/p"+strconv.Itoa(slot)+"/"+p.dir)
			}
		}
	}
	fmt.Fprintf(&imp, ")\n")
	if err := b.put(filepath.Join(repo, virtDir, "cmd", "zz_mains.go"), imp.Bytes()); err != nil {
		return "", nil, err
	}
	ov, _ := json.MarshalIndent(map[string]any{"Replace": b.overlay}, "", " ")
	ovPath := filepath.Join(out, "overlay.json")
	if err := os.WriteFile(ovPath, ov, 0o644); err != nil {
		return "", nil, err
	}
	// go.mod: templates that are not in the module cache come from stubs.
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return "", nil, err
	}
	cache := os.Getenv("GOMODCACHE")
	if cache == "" {
		o, _ := exec.Command("go", "env", "GOMODCACHE").Output()
		cache = strings.TrimSpace(string(o))
	}
	modText := string(mod)
	genRx := regexp.MustCompile(`(?m)^\s*github.com/webrpc/gen-([a-z]+) (v\S+)`)
	for _, m := range genRx.FindAllStringSubmatch(string(mod), -1) {
		if _, err := os.Stat(filepath.Join(cache, "github.com", "webrpc", "gen-"+m[1]+"@"+m[2])); err == nil {
			continue
		}
		modText += fmt.Sprintf("\nreplace github.com/webrpc/gen-%s => %s\n", m[1], filepath.Join(verif, "stubs", "gen-"+m[1]))
	}
	if err := os.WriteFile(filepath.Join(out, "go.mod"), []byte(modText), 0o644); err != nil {
		return "", nil, err
	}
	if err := os.WriteFile(filepath.Join(out, "go.sum"), sum, 0o644); err != nil {
		return "", nil, err
	}
	args := []string{"build", "-trimpath=false", "-overlay", ovPath, "-modfile", filepath.Join(out, "go.mod"), "-o", bin}
	if race {
		noRace := modPath + "/" + virtDir + "/sim=-race=false"
		args = append(args, "-race", "-gcflags="+noRace)
	}
	args = append(args, "./"+virtDir+"/cmd")
	outText, err := runGo(repo, []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off"}, args...)
	if err != nil {
		return "", nil, fmt.Errorf("building the simulator: %w\n%s", err, outText)
	}
	sitesData, _ := json.Marshal(b.sites)
	os.WriteFile(filepath.Join(out, "sites.json"), sitesData, 0o644)
	var names []string
	for _, p := range pkgs {
		names = append(names, p.dir)
	}
	meta = map[string]any{"build_seconds": time.Since(start).Seconds(), "packages": names, "tick_sites": len(b.sites) / slots, "race": race, "go": filepath.Base(goroot)}
	data, _ := json.Marshal(meta)
	os.WriteFile(metaPath, data, 0o644)
	return bin, meta, nil
}
