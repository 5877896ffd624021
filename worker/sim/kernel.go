// Package sim is the simulator: a kernel with processes, an in-memory disk, a network and a clock, under which the
// real code of webrpc runs. Every choice comes from the plan of the run.
package sim

import (
	dstrt "archive"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

const fdBase = 1 << 20

// Sched is the schedule part of a plan: a pure function of these numbers.
type Sched struct {
	Seed   uint64
	Policy uint32 // 0 uniform, 1 long runs, 2 random priorities, 3 first in first out
	Param  uint32
	Limit  uint64 // number of free decisions; afterwards first in first out
	Yield  uint32 // mask: a preemption point every Yield+1 function or loop entries on average; 0 none
	Rand   uint64 // seed of map order, select order and math/rand inside the code under test
	SysGap uint32 // a yield before every (SysGap)th system call on average; 0 none
	Pause  uint32 `json:",omitempty"` // mask: at one of Pause+1 functions and loops, who comes by first is held up for a while; 0 none
	Brief  bool   `json:",omitempty"` // not for longer than a second
}

// Fault is one planned disk or process fault.
type Fault struct {
	Proc   string `json:",omitempty"` // name of the process; empty: any
	Class  string // open, read, write, stat, close, mkdir, unlink, rename, readdir, sync, getcwd, any, mut
	Path   string `json:",omitempty"` // substring of the path
	Nth    int    // 1: first matching call
	Kind   string // EIO, ENOENT, EACCES, EMFILE, ENOSPC, EINTR, short, crash, crashafter, torn, stall
	Arg    int64  `json:",omitempty"`
	Sticky bool   `json:",omitempty"` // all later matching calls as well

	seen    int
	fired   int
	renames int // of those fired
}

// DiskEvent changes the disk from outside when the total number of system calls reaches At.
type DiskEvent struct {
	At   int
	Path string
	Data string
	Kind string // replace (atomic rename), remove, write (in place)

	done bool
}

type Inode struct {
	ino    uint64
	dir    bool
	link   string
	data   []byte
	ents   map[string]*Inode
	order  []string
	mode   uint32
	mtime  int64
	parent *Inode
}

type openFile struct {
	node    *Inode
	path    string
	flags   int
	off     int64
	dirSnap []string
	dirOff  int
	std     int
	locked  int
	pipe    *osPipe
}

// osPipe is a pipe(2) within one process.
type osPipe struct {
	data    []byte
	writers int
	readers int
	wake    chan struct{}
}

func (q *osPipe) notify() {
	close(q.wake)
	q.wake = make(chan struct{})
}

// Proc is a simulated operating system process.
type Proc struct {
	ID       uint32
	Name     string
	Slot     int
	Args     []string
	Cwd      string
	Stdout   []byte
	Stderr   []byte
	Done     chan struct{}
	Ended    bool
	Exit     int
	Crashed  bool
	Panic    string
	StdoutTo string // "", "full" (every write fails with ENOSPC), "closed" (EBADF), "epipe"
	fds      map[int]*openFile
	nextFD   int
	syscalls int
	EndTime  time.Time
	Exec     func(path string, args []string, deadline int64) ([]byte, []byte, int, error)
	Link     map[string]string // "directory variable": set when the program was linked
}

// World is one simulated run.
type World struct {
	paused    time.Duration // by Sched.Pause
	S         Sched
	Root      *Inode
	nextIno   uint64
	Procs     []*Proc
	Faults    []*Fault
	Events    []*DiskEvent
	Log       []string
	logHash   uint64
	logN      int
	Sys       int // system calls
	Stats     map[string]int
	Violation string
	Harness   string // trouble of the simulator itself
	rng       *rand.Rand
	Net       *Net
	MaxSysLat time.Duration
	dirShuf   uint64
	fork      map[string]int
	OnSys     func(p *Proc, class, path string)
	start     time.Time
	MinSteps  uint64
	Budget    uint64
	// ReadChunk bounds the bytes one read returns (0: no bound): short reads are legal everywhere.
	ReadChunk int
	// DirChunk bounds the entries one reading of a directory returns (0: no bound).
	DirChunk int
}

var cur *World

func newRand(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, 0x9e3779b97f4a7c15)) }

// Outcome reports what a world did.
type Outcome struct {
	Decisions, SchedHash, Switches, Steps uint64
	LogHash                               uint64
	SimTime                               time.Duration
	Deadlock                              bool
}

// RunWorld executes body as the controller of a fresh simulated world.
func RunWorld(w *World, body func(w *World)) (out Outcome) {
	if w.Stats == nil {
		w.Stats = map[string]int{}
	}
	if w.Root == nil {
		w.InitDisk()
	}
	w.rng = newRand(w.S.Seed ^ 0x5eed)
	w.dirShuf = w.S.Rand
	w.logHash = 14695981039346656037
	if w.Budget == 0 {
		w.Budget = 200_000_000
	}
	cur = w
	dstrt.SyscallHook = sysHook
	dstrt.ExitHook = exitHook
	dstrt.ArgsHook = argsHook
	dstrt.ExecHook = execHook
	dstrt.LinkHook = func(dir, name string) (string, bool) {
		if p := procByID(dstrt.Proc()); p != nil {
			v, ok := p.Link[dir+" "+name]
			return v, ok
		}
		return "", false
	}
	dstrt.ListenHook = listenHook
	dstrt.DialHook = dialHook
	dstrt.BudgetHook = budgetHook
	dstrt.Start(w.S.Seed, w.S.Rand|1, w.S.Policy, w.S.Param, w.S.Limit)
	dstrt.SetTick(w.Budget, w.S.Yield)
	dstrt.PauseHook = pauseHook
	dstrt.SetPause(w.S.Pause, w.S.Seed)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(error); ok && strings.Contains(e.Error(), "main bubble goroutine has exited but blocked goroutines remain") {
					return // goroutines of ended processes stay parked for ever
				}
				if e, ok := r.(error); ok && strings.Contains(e.Error(), "deadlock") {
					out.Deadlock = true
					return
				}
				panic(r)
			}
		}()
		dstrt.BubbleRun(func() {
			w.start = time.Now()
			body(w)
			dstrt.BubbleWait()
			out.SimTime = time.Since(w.start)
			out.Steps = dstrt.Steps()
			out.Decisions, out.SchedHash, out.Switches = dstrt.SchedStats()
		})
	}()
	dstrt.Stop()
	dstrt.SyscallHook = nil
	out.LogHash = w.logHash
	cur = nil
	return out
}

// Now is the simulated wall clock as processes see it.
func (w *World) Now() time.Time { return time.Now() }

// JumpClock moves the wall clock of all processes relative to the elapsed simulated time.
func (w *World) JumpClock(total time.Duration) {
	dstrt.SetWallOffset(int64(total))
	w.logf("clock offset %v", total)
}

func (w *World) logf(format string, args ...any) {
	line := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	h.Write([]byte(line))
	w.logHash = (w.logHash ^ h.Sum64()) * 1099511628211
	w.logN++
	if len(w.Log) < 4000 {
		w.Log = append(w.Log, line)
	}
}

func (w *World) Logf(format string, args ...any) { w.logf(format, args...) }

func (w *World) Fail(format string, args ...any) {
	if w.Violation == "" {
		w.Violation = fmt.Sprintf(format, args...)
		w.logf("VIOLATION %s", w.Violation)
	}
}

// ---- processes ----

// Spawn starts a process that runs fn over the code of the given slot.
func (w *World) Spawn(name string, slot int, fn func()) *Proc {
	p := &Proc{ID: uint32(len(w.Procs) + 1), Name: name, Slot: slot, Cwd: "/work", Done: make(chan struct{}),
		fds: map[int]*openFile{}, nextFD: fdBase, Args: []string{name}}
	if p.ID >= 250 {
		w.Harness = "too many processes in one run"
		p.ID = 249
	}
	w.Procs = append(w.Procs, p)
	for i := 0; i < 3; i++ {
		p.fds[i] = &openFile{std: i + 1, path: fmt.Sprintf("<fd%d>", i)}
	}
	w.logf("spawn %s", name)
	p.start(w, fn)
	return p
}

func (p *Proc) start(w *World, fn func()) {
	go func() {
		dstrt.SetProc(p.ID)
		defer func() {
			// Only reached when fn returns or panics.
			if r := recover(); r != nil {
				p.Panic = fmt.Sprint(r)
				p.Stderr = append(p.Stderr, []byte("panic: "+p.Panic+"\n")...)
				w.end(p, 2)
			}
			dstrt.SetProc(0)
		}()
		dstrt.Reset(p.Slot)
		fn()
		w.end(p, 0)
	}()
}

// SpawnMain starts a copy of a command with the given arguments.
func (w *World) SpawnMain(slot int, cmd string, args ...string) *Proc {
	return w.SpawnMainNamed(cmd, slot, cmd, args...)
}

func (w *World) SpawnMainNamed(name string, slot int, cmd string, args ...string) *Proc {
	main := dstrt.Main(slot, cmd)
	if main == nil {
		w.Harness = "no command " + cmd
		main = func() {}
	}
	p := w.Spawn(name, slot, main)
	p.Args = append([]string{"/bin/" + cmd}, args...)
	w.logf("args %q", args)
	return p
}

// end marks the process as ended. Its goroutines never run webrpc code again.
func (w *World) end(p *Proc, code int) {
	if p.Ended {
		return
	}
	p.Ended = true
	p.Exit = code
	p.EndTime = time.Now()
	w.logf("end %s code=%d panic=%q", p.Name, code, p.Panic)
	if code != endKeep {
		dstrt.MarkDead(p.ID)
	}
	if w.Net != nil {
		w.Net.procEnded(p)
	}
	close(p.Done)
}

const endKeep = -1000

func (w *World) crash(p *Proc) {
	p.Crashed = true
	w.Stats["crash"]++
	w.end(p, 137)
	park()
}

// Kill ends a process from outside.
func (w *World) Kill(p *Proc) {
	if !p.Ended {
		p.Crashed = true
		w.Stats["kill"]++
		w.end(p, 137)
	}
}

func park() { select {} }

// WaitAll waits for the processes; it reports false when one has not ended after limit simulated time. When nothing
// can run any more and no timer is pending the simulated clock jumps to the limit at once.
func (w *World) WaitAll(limit time.Duration, ps ...*Proc) bool {
	t := time.NewTimer(limit)
	defer t.Stop()
	for _, p := range ps {
		select {
		case <-p.Done:
		case <-t.C:
			for _, p := range ps {
				if !p.Ended {
					w.logf("not ended: %s", p.Name)
				}
			}
			return false
		}
	}
	return true
}

// OpenFDs lists files a process still has open.
func (p *Proc) OpenFDs() []string {
	var out []string
	for fd, f := range p.fds {
		if fd >= fdBase {
			out = append(out, f.path)
		}
	}
	sort.Strings(out)
	return out
}

func procByID(id uint32) *Proc {
	w := cur
	if w == nil || id == 0 || int(id) > len(w.Procs) {
		return nil
	}
	return w.Procs[id-1]
}

func exitHook(code int) {
	dstrt.Quiet(true)
	defer dstrt.Quiet(false)
	p := procByID(dstrt.Proc())
	if p == nil {
		return
	}
	cur.end(p, code)
	park()
}

func argsHook() []string {
	p := procByID(dstrt.Proc())
	if p == nil {
		return []string{"webrpc"}
	}
	return p.Args
}

func execHook(path string, args []string, deadline int64) ([]byte, []byte, int, error) {
	dstrt.Quiet(true)
	defer dstrt.Quiet(false)
	p := procByID(dstrt.Proc())
	w := cur
	base := path
	if i := strings.LastIndex(base, "/"); i >= 0 {
		base = base[i+1:]
	}
	a := append([]string{base}, args[1:]...)
	w.Stats["exec"]++
	if p != nil && p.Exec != nil {
		out, errOut, code, err := p.Exec(base, args, deadline)
		w.logf("%s exec %q -> %d %v", p.Name, a, code, err)
		return out, errOut, code, err
	}
	if base == "go" && len(args) > 1 && args[1] == "env" {
		return []byte(`{"GO111MODULE":"","GOFLAGS":"","GOINSECURE":"","GOMOD":"/dev/null","GOMODCACHE":"/root/go/pkg/mod","GONOPROXY":"","GONOSUMDB":"","GOPATH":"/root/go","GOPROXY":"off","GOROOT":"/usr/lib/go","GOSUMDB":"off","GOWORK":""}`), nil, 0, nil
	}
	if base == "go" {
		return []byte("v0.99.0\n"), nil, 0, nil
	}
	return nil, nil, 128, nil
}

// settle lets everything that is still on its way come to its end.
func (w *World) settle() {
	time.Sleep(time.Millisecond)
	if w.S.Pause != 0 {
		time.Sleep(10 * time.Minute)
	}
}

// pauseHook holds a goroutine up, as a busy machine does.
func pauseHook(rnd uint64) {
	w := cur
	p := procByID(dstrt.Proc())
	if w == nil || p == nil || p.Ended || w.paused > 5*time.Minute || w.S.Brief && w.paused > 20*time.Second {
		return
	}
	dstrt.Quiet(true)
	d := time.Millisecond << (rnd % 17) // up to a minute
	if w.S.Brief {
		d = time.Millisecond << (rnd % 11)
	}
	w.paused += d
	w.Stats["fault.pause"]++
	time.Sleep(d)
	dstrt.Quiet(false)
	if p.Ended {
		park()
	}
}

func budgetHook(steps uint64) {
	dstrt.Quiet(true)
	defer dstrt.Quiet(false)
	w := cur
	if w == nil {
		return
	}
	name := "?"
	p := procByID(dstrt.Proc())
	if p != nil {
		name = p.Name
	}
	w.Stats["budget"]++
	if p != nil {
		p.Panic = fmt.Sprintf("does not terminate: more than %d function calls and loop iterations", steps-1)
		w.end(p, 99)
	}
	w.logf("step budget exceeded in %s", name)
	park()
}

// ---- disk ----

func (w *World) newInode(dir bool) *Inode {
	w.nextIno++
	n := &Inode{ino: w.nextIno + 1000, dir: dir, mode: 0o644}
	if cur == w && w.S.Rand&6 != 0 {
		n.ino = w.freeIno()
	}
	if dir {
		n.ents = map[string]*Inode{}
		n.mode = 0o755
	}
	n.mtime = 946684800000000000
	return n
}

// freeIno is the lowest inode number that is not in use, as many file systems assign them.
func (w *World) freeIno() uint64 {
	used := map[uint64]bool{}
	var walk func(n *Inode)
	walk = func(n *Inode) {
		used[n.ino] = true
		for _, c := range n.ents {
			walk(c)
		}
	}
	walk(w.Root)
	for _, p := range w.Procs {
		for _, f := range p.fds {
			if f.node != nil {
				used[f.node.ino] = true
			}
		}
	}
	for ino := uint64(1001); ; ino++ {
		if !used[ino] {
			return ino
		}
	}
}

func (w *World) InitDisk() {
	w.Root = w.newInode(true)
	w.Root.parent = w.Root
	for _, d := range []string{"/tmp", "/work", "/root", "/etc", "/proc"} {
		w.MkdirAll(d)
	}
}

func (n *Inode) set(name string, c *Inode) {
	if _, ok := n.ents[name]; !ok {
		n.order = append(n.order, name)
	}
	n.ents[name] = c
	if c.dir {
		c.parent = n
	}
}

func (n *Inode) del(name string) {
	delete(n.ents, name)
	for i, o := range n.order {
		if o == name {
			n.order = append(append([]string(nil), n.order[:i]...), n.order[i+1:]...)
			break
		}
	}
}

func (w *World) MkdirAll(p string) *Inode {
	n := w.Root
	for _, part := range strings.Split(strings.Trim(p, "/"), "/") {
		if part == "" {
			continue
		}
		c := n.ents[part]
		if c == nil {
			c = w.newInode(true)
			n.set(part, c)
		}
		if path.IsAbs(c.link) {
			c = w.MkdirAll(c.link)
		}
		n = c
	}
	return n
}

// device tells on which file system a directory is: /tmp and /srv are not part of the root's.
func (w *World) device(d *Inode) string {
	for _, name := range []string{"tmp", "srv"} {
		top := w.Root.ents[name]
		for a := d; a != nil && a != w.Root; a = a.parent {
			if a == top {
				return name
			}
		}
	}
	return ""
}

// WriteFile puts a file on the disk from outside (not a system call).
func (w *World) WriteFile(p string, data string) {
	d := w.MkdirAll(path.Dir(p))
	n := w.newInode(false)
	n.data = []byte(data)
	n.mtime = time.Now().UnixNano()
	d.set(path.Base(p), n)
}

func (w *World) Remove(p string) {
	d, errno := w.lookup("/", path.Dir(p), true, 0)
	if errno == 0 && d.dir {
		d.del(path.Base(p))
	}
}

// ReadFile reads a file from outside.
func (w *World) ReadFile(p string) (string, bool) {
	n, errno := w.lookup("/", p, true, 0)
	if errno != 0 || n.dir {
		return "", false
	}
	return string(n.data), true
}

func (w *World) Exists(p string) bool {
	_, errno := w.lookup("/", p, true, 0)
	return errno == 0
}

func (w *World) Symlink(target, p string) {
	d := w.MkdirAll(path.Dir(p))
	n := w.newInode(false)
	n.link = target
	d.set(path.Base(p), n)
}

// List returns all file paths below p, sorted.
func (w *World) List(p string) []string {
	var out []string
	var walk func(prefix string, n *Inode)
	walk = func(prefix string, n *Inode) {
		if !n.dir {
			out = append(out, prefix)
			return
		}
		for name, c := range n.ents {
			walk(path.Join(prefix, name), c)
		}
	}
	n, errno := w.lookup("/", p, true, 0)
	if errno == 0 {
		walk(p, n)
	}
	sort.Strings(out)
	return out
}

// Snapshot maps every file below p to its content.
func (w *World) Snapshot(p string) map[string]string {
	m := map[string]string{}
	for _, f := range w.List(p) {
		s, _ := w.ReadFile(f)
		m[f] = s
	}
	return m
}

func (w *World) lookup(cwd, p string, follow bool, depth int) (*Inode, syscall.Errno) {
	if depth > 10 {
		return nil, syscall.ELOOP
	}
	if p == "" {
		return nil, syscall.ENOENT
	}
	if len(p) >= 4096 {
		return nil, syscall.ENAMETOOLONG
	}
	full := p
	if !strings.HasPrefix(p, "/") {
		full = cwd + "/" + p
	}
	n := w.Root
	at := "/"
	parts := strings.Split(full, "/")
	for i, part := range parts {
		if part == "" || part == "." {
			continue
		}
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		if len(part) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		if part == ".." {
			n = n.parent
			at = path.Dir(at)
			continue
		}
		c := n.ents[part]
		if c == nil {
			return nil, syscall.ENOENT
		}
		last := i == len(parts)-1
		if c.link != "" && (follow || !last) {
			t := c.link
			if !strings.HasPrefix(t, "/") {
				t = path.Join(at, t)
			}
			r, errno := w.lookup("/", t, true, depth+1)
			if errno != 0 {
				return nil, errno
			}
			n = r
			at = t
			continue
		}
		n = c
		at = path.Join(at, part)
	}
	if strings.HasSuffix(p, "/") && !n.dir {
		return nil, syscall.ENOTDIR
	}
	return n, 0
}

func (w *World) parentOf(cwd, p string) (*Inode, string, syscall.Errno) {
	q := strings.TrimRight(p, "/")
	if q == "" {
		return nil, "", syscall.EEXIST
	}
	i := strings.LastIndex(q, "/")
	base := q[i+1:]
	dir := "."
	if i == 0 {
		dir = "/"
	} else if i > 0 {
		dir = q[:i]
	}
	if base == "." || base == ".." {
		return nil, "", syscall.EINVAL
	}
	if len(base) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	d, errno := w.lookup(cwd, dir, true, 0)
	if errno != 0 {
		return nil, "", errno
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, base, 0
}

func (w *World) pathOf(n *Inode) string {
	if n == w.Root {
		return "/"
	}
	if n.parent == nil {
		return "?"
	}
	for name, c := range n.parent.ents {
		if c == n {
			return path.Join(w.pathOf(n.parent), name)
		}
	}
	return "?"
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	b := (*[1 << 20]byte)(unsafe.Pointer(p))
	for i := 0; i < 1<<20; i++ {
		if b[i] == 0 {
			return string(b[:i])
		}
	}
	return ""
}

func bytesAt(p uintptr, n int) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), n)
}

var errnoByName = map[string]syscall.Errno{"EIO": syscall.EIO, "ENOENT": syscall.ENOENT, "EACCES": syscall.EACCES,
	"EMFILE": syscall.EMFILE, "ENOSPC": syscall.ENOSPC, "EINTR": syscall.EINTR, "EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT,
	"ENOMEM": syscall.ENOMEM, "EISDIR": syscall.EISDIR, "ESTALE": syscall.ESTALE}

var mutating = map[string]bool{"write": true, "mkdir": true, "unlink": true, "rename": true, "create": true, "truncate": true}

// fault decides whether a planned fault fires at this call.
func (w *World) fault(p *Proc, class, name string) *Fault {
	var hit *Fault
	for _, f := range w.Faults {
		if f.Proc != "" && f.Proc != p.Name {
			continue
		}
		if f.Class != class && f.Class != "any" && !(f.Class == "mut" && mutating[class]) && !(f.Class == "open" && class == "create") {
			continue
		}
		if f.Path != "" && !strings.Contains(name, f.Path) || strings.HasSuffix(f.Path, ".ridl") && !strings.HasSuffix(name, f.Path) {
			continue
		}
		f.seen++
		if f.seen == f.Nth || (f.Sticky && f.seen > f.Nth) {
			if hit == nil && !(f.Kind == "EINTR" && f.fired >= 50) { // package os repeats interrupted calls
				hit = f
			}
		}
	}
	return hit
}

func (f *Fault) Fired() bool { return f.fired > 0 }

func sysHook(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, uintptr, bool) {
	dstrt.Quiet(true)
	defer dstrt.Quiet(false)
	w := cur
	p := procByID(dstrt.Proc())
	if w == nil || p == nil {
		return 0, 0, 0, false
	}
	if p.Ended {
		// No effect of an ended process may become visible.
		if (trap == syscall.SYS_WRITE || trap == syscall.SYS_CLOSE) && int(int32(a1)) < fdBase {
			return a3, 0, 0, true
		}
		park()
	}
	r, errno := w.syscall(p, trap, a1, a2, a3, a4, a5, a6)
	if errno != 0 {
		return ^uintptr(0), 0, uintptr(errno), true
	}
	return r, 0, 0, true
}

const (
	atFDCWD          = -100
	sysRenameat2     = 316
	sysCopyFileRange = 326
)

func (w *World) syscall(p *Proc, trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno) {
	at := func(dirfd uintptr, ptr uintptr) (string, string) { // base directory, path
		s := cstr(ptr)
		d := int(int32(dirfd))
		if d == atFDCWD || strings.HasPrefix(s, "/") {
			return p.Cwd, s
		}
		if f := p.fds[d]; f != nil && f.node != nil {
			return w.pathOf(f.node), s // the directory may have been moved since it was opened
		}
		return p.Cwd, s
	}
	// Classify.
	class, cwd, name := "", p.Cwd, ""
	var f *openFile
	fdArg := func() {
		f = p.fds[int(int32(a1))]
		if f != nil {
			name = f.path
		}
	}
	switch trap {
	case syscall.SYS_OPENAT:
		cwd, name = at(a1, a2)
		class = "open"
		if int(a3)&syscall.O_CREAT != 0 || int(a3)&syscall.O_TRUNC != 0 {
			class = "create"
		}
	case syscall.SYS_OPEN:
		class, name = "open", cstr(a1)
		if int(a2)&syscall.O_CREAT != 0 || int(a2)&syscall.O_TRUNC != 0 {
			class = "create"
		}
		a1, a2, a3, a4 = uintptr(uint32(0xffffff9c)), a1, a2, a3
		trap = syscall.SYS_OPENAT
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		class = "read"
		fdArg()
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		class = "write"
		fdArg()
		if f != nil && f.std != 0 {
			class = "stdwrite"
		}
	case syscall.SYS_CLOSE:
		class = "close"
		fdArg()
	case syscall.SYS_FSTAT:
		class = "stat"
		fdArg()
	case syscall.SYS_NEWFSTATAT:
		class = "stat"
		cwd, name = at(a1, a2)
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		class, name = "stat", cstr(a1)
	case syscall.SYS_GETDENTS64:
		class = "readdir"
		fdArg()
	case syscall.SYS_MKDIRAT:
		class = "mkdir"
		cwd, name = at(a1, a2)
	case syscall.SYS_MKDIR:
		class, name = "mkdir", cstr(a1)
	case syscall.SYS_SYMLINKAT:
		class = "create"
		cwd, name = at(a2, a3)
	case syscall.SYS_LINKAT:
		class = "create"
		cwd, name = at(a3, a4)
	case syscall.SYS_CHDIR:
		class, name = "stat", cstr(a1)
	case syscall.SYS_FCHDIR:
		class = "stat"
		fdArg()
	case syscall.SYS_UTIMENSAT:
		class = "stat"
		cwd, name = at(a1, a2)
	case syscall.SYS_UNLINKAT:
		class = "unlink"
		cwd, name = at(a1, a2)
	case syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		class, name = "unlink", cstr(a1)
	case syscall.SYS_RENAMEAT, sysRenameat2:
		class = "rename"
		cwd, name = at(a1, a2)
	case syscall.SYS_RENAME:
		class, name = "rename", cstr(a1)
	case syscall.SYS_FTRUNCATE:
		class = "truncate"
		fdArg()
	case syscall.SYS_TRUNCATE:
		class, name = "truncate", cstr(a1)
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		class = "sync"
		fdArg()
	case syscall.SYS_GETCWD:
		class = "getcwd"
	case syscall.SYS_READLINKAT, syscall.SYS_READLINK, syscall.SYS_FACCESSAT, syscall.SYS_ACCESS, 439: // faccessat2
		class = "stat"
		if trap == syscall.SYS_READLINK || trap == syscall.SYS_ACCESS {
			name = cstr(a1)
		} else {
			cwd, name = at(a1, a2)
		}
	default:
		class = "other"
	}
	w.Sys++
	p.syscalls++
	w.runEvents()
	if w.OnSys != nil {
		w.OnSys(p, class, name)
	}
	if class != "stdwrite" && class != "other" {
		if w.S.SysGap > 0 && w.rng.Uint32()%w.S.SysGap == 0 {
			dstrt.Yield()
			if p.Ended {
				park()
			}
		}
		if w.MaxSysLat > 0 && w.rng.Uint32()%4 == 0 {
			time.Sleep(time.Duration(w.rng.Int64N(int64(w.MaxSysLat))))
			if p.Ended {
				park()
			}
		}
	}
	shortTo := -1
	var after *Fault
	if flt := w.fault(p, class, name); flt != nil && trap != syscall.SYS_PIPE2 && (f == nil || f.pipe == nil) {
		flt.fired++
		if class == "rename" {
			flt.renames++
		}
		w.Stats["fault."+flt.Kind]++
		w.logf("%s fault %s at %s %s", p.Name, flt.Kind, class, name)
		switch flt.Kind {
		case "crash":
			w.crash(p)
		case "crashafter":
			after = flt
		case "stall":
			if class != "stdwrite" {
				time.Sleep(time.Duration(flt.Arg))
				if p.Ended {
					park()
				}
			}
		case "short":
			shortTo = int(flt.Arg)
		case "closeloss": // what was written could not be stored, and only close tells
			if class == "close" {
				if f != nil && f.node != nil && f.flags&syscall.O_ACCMODE != syscall.O_RDONLY {
					if keep := int(flt.Arg); keep < len(f.node.data) {
						f.node.data = f.node.data[:keep:keep]
					}
				}
				w.do(p, f, trap, cwd, name, a1, a2, a3, a4, -1)
				return 0, syscall.EIO
			}
		case "torn":
			shortTo = int(flt.Arg)
			after = flt
		case "ENOSPC":
			if class == "write" && flt.Arg > 0 && flt.fired == 1 {
				shortTo = int(flt.Arg)
			} else {
				if class == "close" {
					w.do(p, f, trap, cwd, name, a1, a2, a3, a4, -1)
				}
				return 0, syscall.ENOSPC
			}
		default:
			e, ok := errnoByName[flt.Kind]
			if !ok {
				w.Harness = "unknown fault " + flt.Kind
			}
			if flt.Kind == "EINTR" && (class == "close" || class == "stat" || class == "getcwd") {
				break // these calls do not fail this way
			}
			if class == "close" { // the descriptor is gone in any case
				w.do(p, f, trap, cwd, name, a1, a2, a3, a4, -1)
			}
			return 0, e
		}
	}
	r, errno := w.do(p, f, trap, cwd, name, a1, a2, a3, a4, shortTo)
	if class != "other" || errno != 0 {
		w.logf("%s %s %s -> %d %d", p.Name, class, name, int64(r), int(errno))
	}
	if after != nil {
		w.crash(p)
	}
	return r, errno
}

func (w *World) runEvents() {
	for _, e := range w.Events {
		if !e.done && w.Sys >= e.At {
			e.done = true
			w.Stats["event."+e.Kind]++
			w.logf("event %s %s", e.Kind, e.Path)
			switch e.Kind {
			case "replace":
				w.WriteFile(e.Path, e.Data)
			case "remove":
				w.Remove(e.Path)
			case "write":
				if n, errno := w.lookup("/", e.Path, true, 0); errno == 0 && !n.dir {
					n.data = []byte(e.Data)
				}
			}
		}
	}
}

func (w *World) fillStat(n *Inode, ptr uintptr) {
	st := (*syscall.Stat_t)(unsafe.Pointer(ptr))
	*st = syscall.Stat_t{Dev: 7, Ino: n.ino, Nlink: 1, Mode: n.mode, Size: int64(len(n.data)), Blksize: 4096}
	switch {
	case n.dir:
		st.Mode |= syscall.S_IFDIR
		st.Size = 4096
	case n.link != "":
		st.Mode = syscall.S_IFLNK | 0o777
		st.Size = int64(len(n.link))
	default:
		st.Mode |= syscall.S_IFREG
	}
	st.Mtim = syscall.NsecToTimespec(n.mtime)
	st.Ctim = st.Mtim
	st.Atim = st.Mtim
}

func (w *World) touch(n *Inode) { n.mtime = time.Now().UnixNano() }

func (w *World) do(p *Proc, f *openFile, trap uintptr, cwd, name string, a1, a2, a3, a4 uintptr, shortTo int) (uintptr, syscall.Errno) {
	abs := name
	if !strings.HasPrefix(name, "/") {
		abs = path.Join(cwd, name)
	} else {
		abs = path.Clean(name)
	}
	if f != nil && f.pipe != nil {
		return w.doPipe(p, f, trap, a1, a2, a3)
	}
	switch trap {
	case syscall.SYS_PIPE2:
		q := &osPipe{writers: 1, readers: 1, wake: make(chan struct{})}
		fds := (*[2]int32)(unsafe.Pointer(a1))
		for i, acc := range []int{syscall.O_RDONLY, syscall.O_WRONLY} {
			p.fds[p.nextFD] = &openFile{pipe: q, flags: acc, path: "<pipe>"}
			fds[i] = int32(p.nextFD)
			p.nextFD++
		}
		return 0, 0
	case syscall.SYS_OPENAT:
		flags := int(a3)
		n, errno := w.lookup(cwd, name, flags&syscall.O_NOFOLLOW == 0, 0)
		if errno == syscall.ENOENT && flags&syscall.O_CREAT != 0 {
			d, base, e := w.parentOf(cwd, name)
			if e != 0 {
				return 0, e
			}
			if c := d.ents[base]; c != nil {
				return 0, syscall.ENOENT // dangling link
			}
			n = w.newInode(false)
			n.mode = uint32(a4) & 0o755
			w.touch(n)
			d.set(base, n)
			errno = 0
		} else if errno == 0 && flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return 0, syscall.EEXIST
		}
		if errno != 0 {
			return 0, errno
		}
		if n.link != "" {
			return 0, syscall.ELOOP
		}
		acc := flags & syscall.O_ACCMODE
		if n.dir && acc != syscall.O_RDONLY {
			return 0, syscall.EISDIR
		}
		if !n.dir && flags&syscall.O_DIRECTORY != 0 {
			return 0, syscall.ENOTDIR
		}
		if flags&syscall.O_TRUNC != 0 && !n.dir {
			n.data = nil
			w.touch(n)
		}
		if len(p.fds) > 1000 {
			return 0, syscall.EMFILE
		}
		fd := p.nextFD
		p.nextFD++
		p.fds[fd] = &openFile{node: n, path: abs, flags: flags}
		return uintptr(fd), 0
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		if f == nil {
			return 0, syscall.EBADF
		}
		if f.std != 0 {
			return 0, 0
		}
		if f.node.dir {
			return 0, syscall.EISDIR
		}
		if f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			return 0, syscall.EBADF
		}
		off := f.off
		if trap == syscall.SYS_PREAD64 {
			off = int64(a4)
		}
		n := int(a3)
		if off >= int64(len(f.node.data)) {
			n = 0
		} else if rest := int(int64(len(f.node.data)) - off); n > rest {
			n = rest
		}
		if shortTo > 0 && n > shortTo {
			n = shortTo
		}
		if w.ReadChunk > 0 && n > w.ReadChunk {
			n = w.ReadChunk
		}
		if n > 0 {
			copy(bytesAt(a2, n), f.node.data[off:])
			if trap == syscall.SYS_READ {
				f.off += int64(n)
			}
		}
		return uintptr(n), 0
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		if f == nil {
			return 0, syscall.EBADF
		}
		data := bytesAt(a2, int(a3))
		if f.std != 0 {
			if f.std == 2 && p.StdoutTo != "" {
				switch p.StdoutTo {
				case "full":
					w.Stats["fault.stdout-full"]++
					return 0, syscall.ENOSPC
				case "epipe":
					w.Stats["fault.stdout-epipe"]++
					return 0, syscall.EPIPE
				case "closed":
					w.Stats["fault.stdout-closed"]++
					return 0, syscall.EBADF
				case "partial":
					room := 64 - len(p.Stdout)
					if room <= 0 {
						w.Stats["fault.stdout-full"]++
						return 0, syscall.ENOSPC
					}
					if len(data) > room {
						data = data[:room]
					}
				}
			}
			if f.std == 2 && shortTo >= 0 && len(data) > shortTo {
				data = data[:shortTo]
			}
			if f.std == 2 {
				p.Stdout = append(p.Stdout, data...)
			} else if f.std == 3 {
				p.Stderr = append(p.Stderr, data...)
			} else {
				return 0, syscall.EBADF
			}
			return uintptr(len(data)), 0
		}
		if f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return 0, syscall.EBADF
		}
		if shortTo >= 0 && len(data) > shortTo {
			data = data[:shortTo]
		}
		off := f.off
		if f.flags&syscall.O_APPEND != 0 {
			off = int64(len(f.node.data))
		}
		if trap == syscall.SYS_PWRITE64 {
			off = int64(a4)
		}
		end := off + int64(len(data))
		if end > 64<<20 {
			return 0, syscall.EFBIG
		}
		if int64(len(f.node.data)) < end {
			f.node.data = append(f.node.data, make([]byte, end-int64(len(f.node.data)))...)
		}
		copy(f.node.data[off:], data)
		if trap == syscall.SYS_WRITE {
			f.off = end
		}
		w.touch(f.node)
		return uintptr(len(data)), 0
	case syscall.SYS_CLOSE:
		if f == nil {
			return 0, syscall.EBADF
		}
		delete(p.fds, int(int32(a1)))
		return 0, 0
	case syscall.SYS_FSTAT:
		if f == nil {
			return 0, syscall.EBADF
		}
		if f.std != 0 {
			st := (*syscall.Stat_t)(unsafe.Pointer(a2))
			*st = syscall.Stat_t{Mode: syscall.S_IFIFO | 0o600}
			return 0, 0
		}
		w.fillStat(f.node, a2)
		return 0, 0
	case syscall.SYS_NEWFSTATAT:
		if name == "" && f == nil {
			if of := p.fds[int(int32(a1))]; of != nil && of.node != nil {
				w.fillStat(of.node, a3)
				return 0, 0
			}
		}
		n, errno := w.lookup(cwd, name, a4&0x100 == 0, 0)
		if errno != 0 {
			return 0, errno
		}
		w.fillStat(n, a3)
		return 0, 0
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		n, errno := w.lookup(cwd, name, trap == syscall.SYS_STAT, 0)
		if errno != 0 {
			return 0, errno
		}
		w.fillStat(n, a2)
		return 0, 0
	case syscall.SYS_GETDENTS64:
		if f == nil || f.node == nil {
			return 0, syscall.EBADF
		}
		if !f.node.dir {
			return 0, syscall.ENOTDIR
		}
		if f.dirSnap == nil {
			f.dirSnap = append([]string{".", ".."}, f.node.order...)
			r := newRand(w.dirShuf ^ f.node.ino)
			r.Shuffle(len(f.dirSnap)-2, func(i, j int) { f.dirSnap[i+2], f.dirSnap[j+2] = f.dirSnap[j+2], f.dirSnap[i+2] })
		}
		buf := bytesAt(a2, int(a3))
		used := 0
		for count := 0; f.dirOff < len(f.dirSnap) && (w.DirChunk <= 0 || count < w.DirChunk); count++ {
			nm := f.dirSnap[f.dirOff]
			ino, typ := f.node.ino, byte(syscall.DT_DIR)
			if nm != "." && nm != ".." {
				c := f.node.ents[nm]
				if c == nil {
					f.dirOff++
					continue
				}
				ino = c.ino
				if c.link != "" {
					typ = syscall.DT_LNK
				} else if !c.dir {
					typ = syscall.DT_REG
				}
			}
			rl := (19 + len(nm) + 1 + 7) &^ 7
			if used+rl > len(buf) {
				break
			}
			b := buf[used : used+rl]
			for i := range b {
				b[i] = 0
			}
			*(*uint64)(unsafe.Pointer(&b[0])) = ino
			*(*int64)(unsafe.Pointer(&b[8])) = int64(f.dirOff + 1)
			*(*uint16)(unsafe.Pointer(&b[16])) = uint16(rl)
			b[18] = typ
			copy(b[19:], nm)
			used += rl
			f.dirOff++
		}
		return uintptr(used), 0
	case syscall.SYS_MKDIRAT, syscall.SYS_MKDIR:
		if _, errno := w.lookup(cwd, name, false, 0); errno == 0 {
			return 0, syscall.EEXIST
		}
		d, base, errno := w.parentOf(cwd, name)
		if errno != 0 {
			return 0, errno
		}
		c := w.newInode(true)
		w.touch(c)
		d.set(base, c)
		return 0, 0
	case syscall.SYS_SYMLINKAT, syscall.SYS_LINKAT:
		if _, errno := w.lookup(cwd, name, false, 0); errno == 0 {
			return 0, syscall.EEXIST
		}
		d, base, errno := w.parentOf(cwd, name)
		if errno != 0 {
			return 0, errno
		}
		var c *Inode
		if trap == syscall.SYS_SYMLINKAT {
			c = w.newInode(false)
			c.link = cstr(a1)
			w.touch(c)
		} else {
			oldCwd, old := p.Cwd, cstr(a2)
			if df := p.fds[int(int32(a1))]; df != nil && df.node != nil {
				oldCwd = w.pathOf(df.node)
			}
			if c, errno = w.lookup(oldCwd, old, false, 0); errno != 0 {
				return 0, errno
			}
			if c.dir {
				return 0, syscall.EPERM
			}
		}
		d.set(base, c)
		return 0, 0
	case syscall.SYS_CHDIR:
		n, errno := w.lookup(cwd, name, true, 0)
		if errno == 0 && !n.dir {
			errno = syscall.ENOTDIR
		}
		if errno != 0 {
			return 0, errno
		}
		p.Cwd = w.pathOf(n)
		return 0, 0
	case syscall.SYS_FCHDIR:
		if f == nil || f.node == nil {
			return 0, syscall.EBADF
		}
		if !f.node.dir {
			return 0, syscall.ENOTDIR
		}
		p.Cwd = w.pathOf(f.node)
		return 0, 0
	case syscall.SYS_UTIMENSAT:
		n, errno := w.lookup(cwd, name, a4&0x100 == 0, 0)
		if a2 == 0 { // the descriptor itself
			if df := p.fds[int(int32(a1))]; df != nil && df.node != nil {
				n, errno = df.node, 0
			}
		}
		if errno != 0 {
			return 0, errno
		}
		t := time.Now().UnixNano()
		if a3 != 0 {
			ts := (*[2]syscall.Timespec)(unsafe.Pointer(a3))[1]
			switch ts.Nsec {
			case 0x3fffffff:
			case 0x3ffffffe:
				t = n.mtime
			default:
				t = ts.Nano()
			}
		}
		n.mtime = t
		return 0, 0
	case syscall.SYS_UNLINKAT, syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		rmdir := trap == syscall.SYS_RMDIR || (trap == syscall.SYS_UNLINKAT && a3&0x200 != 0)
		d, base, errno := w.parentOf(cwd, name)
		if errno != 0 {
			return 0, errno
		}
		c := d.ents[base]
		if c == nil {
			return 0, syscall.ENOENT
		}
		if rmdir {
			if !c.dir {
				return 0, syscall.ENOTDIR
			}
			if len(c.ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
		} else if c.dir {
			return 0, syscall.EISDIR
		}
		d.del(base)
		w.touch(d)
		return 0, 0
	case syscall.SYS_RENAMEAT, sysRenameat2, syscall.SYS_RENAME:
		newCwd, newName := p.Cwd, ""
		if trap == syscall.SYS_RENAME {
			newName = cstr(a2)
		} else {
			newName = cstr(a4)
			if d := int(int32(a3)); d != atFDCWD && !strings.HasPrefix(newName, "/") {
				if df := p.fds[d]; df != nil {
					newCwd = df.path
				}
			}
		}
		d1, b1, errno := w.parentOf(cwd, name)
		if errno != 0 {
			return 0, errno
		}
		c := d1.ents[b1]
		if c == nil {
			return 0, syscall.ENOENT
		}
		d2, b2, errno := w.parentOf(newCwd, newName)
		if errno != 0 {
			return 0, errno
		}
		if w.device(d1) != w.device(d2) {
			w.Stats["event.rename_across_devices"]++
			return 0, syscall.EXDEV
		}
		if old := d2.ents[b2]; old != nil {
			switch {
			case old == c:
				return 0, 0
			case old.dir && !c.dir:
				return 0, syscall.EISDIR
			case !old.dir && c.dir:
				return 0, syscall.ENOTDIR
			case old.dir && len(old.ents) > 0:
				return 0, syscall.ENOTEMPTY
			}
		}
		for a := d2; c.dir; a = a.parent {
			if a == c {
				return 0, syscall.EINVAL
			}
			if a == w.Root {
				break
			}
		}
		d1.del(b1)
		d2.set(b2, c)
		w.logf("%s rename to %s", p.Name, newName)
		return 0, 0
	case syscall.SYS_FTRUNCATE, syscall.SYS_TRUNCATE:
		var n *Inode
		if trap == syscall.SYS_TRUNCATE {
			var errno syscall.Errno
			if n, errno = w.lookup(cwd, name, true, 0); errno != 0 {
				return 0, errno
			}
		} else {
			if f == nil || f.node == nil {
				return 0, syscall.EBADF
			}
			n = f.node
		}
		if n.dir {
			return 0, syscall.EISDIR
		}
		size := int(a2)
		if size <= len(n.data) {
			n.data = n.data[:size:size]
		} else {
			n.data = append(n.data, make([]byte, size-len(n.data))...)
		}
		return 0, 0
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		if f == nil {
			return 0, syscall.EBADF
		}
		return 0, 0
	case syscall.SYS_GETCWD:
		b := bytesAt(a1, int(a2))
		if len(p.Cwd)+1 > len(b) {
			return 0, syscall.ERANGE
		}
		copy(b, p.Cwd)
		b[len(p.Cwd)] = 0
		return uintptr(len(p.Cwd) + 1), 0
	case syscall.SYS_READLINKAT, syscall.SYS_READLINK:
		n, errno := w.lookup(cwd, name, false, 0)
		if errno != 0 {
			return 0, errno
		}
		if n.link == "" {
			return 0, syscall.EINVAL
		}
		bp, bl := a3, int(a4)
		if trap == syscall.SYS_READLINK {
			bp, bl = a2, int(a3)
		}
		return uintptr(copy(bytesAt(bp, bl), n.link)), 0
	case syscall.SYS_FACCESSAT, syscall.SYS_ACCESS, 439:
		if _, errno := w.lookup(cwd, name, true, 0); errno != 0 {
			return 0, errno
		}
		return 0, 0
	case syscall.SYS_LSEEK:
		ff := p.fds[int(int32(a1))]
		if ff == nil {
			return 0, syscall.EBADF
		}
		if ff.std != 0 {
			return 0, syscall.ESPIPE
		}
		var base int64
		switch a3 {
		case 1:
			base = ff.off
		case 2:
			base = int64(len(ff.node.data))
		}
		no := base + int64(a2)
		if no < 0 {
			return 0, syscall.EINVAL
		}
		ff.off = no
		if ff.node.dir && no == 0 {
			ff.dirSnap, ff.dirOff = nil, 0
		}
		return uintptr(no), 0
	case syscall.SYS_FCNTL:
		if p.fds[int(int32(a1))] == nil {
			return 0, syscall.EBADF
		}
		if a2 == syscall.F_SETFL {
			return 0, syscall.EINVAL // keeps the runtime poller away from simulated files
		}
		return 0, 0
	case syscall.SYS_FCHMOD, syscall.SYS_FCHMODAT, syscall.SYS_CHMOD, syscall.SYS_FCHOWN, syscall.SYS_FCHOWNAT, syscall.SYS_FADVISE64, syscall.SYS_FALLOCATE, syscall.SYS_UMASK, syscall.SYS_SYNC, syscall.SYS_SYNC_FILE_RANGE:
		return 0, 0
	case syscall.SYS_FLOCK:
		return w.flock(p, int(int32(a1)), int(a2))
	case syscall.SYS_IOCTL:
		return 0, syscall.ENOTTY
	case syscall.SYS_GETPID:
		return uintptr(1000 + p.ID), 0
	case syscall.SYS_GETPPID:
		return 1, 0
	case syscall.SYS_GETUID, syscall.SYS_GETGID, syscall.SYS_GETEUID, syscall.SYS_GETEGID:
		return 0, 0
	case syscall.SYS_UNAME, syscall.SYS_STATFS, syscall.SYS_FSTATFS, sysCopyFileRange, syscall.SYS_SENDFILE, syscall.SYS_SPLICE:
		return 0, syscall.ENOSYS
	}
	if w.Harness == "" {
		w.Harness = fmt.Sprintf("unhandled system call %d", trap)
	}
	return 0, syscall.ENOSYS
}

func (w *World) doPipe(p *Proc, f *openFile, trap, fd, ptr, n uintptr) (uintptr, syscall.Errno) {
	q := f.pipe
	switch trap {
	case syscall.SYS_READ:
		if f.flags != syscall.O_RDONLY {
			return 0, syscall.EBADF
		}
		for len(q.data) == 0 && q.writers > 0 {
			<-q.wake
			if p.Ended {
				park()
			}
		}
		k := copy(bytesAt(ptr, int(n)), q.data)
		q.data = q.data[k:]
		return uintptr(k), 0
	case syscall.SYS_WRITE:
		if f.flags != syscall.O_WRONLY {
			return 0, syscall.EBADF
		}
		q.data = append(q.data, bytesAt(ptr, int(n))...)
		q.notify()
		return n, 0
	case syscall.SYS_CLOSE:
		delete(p.fds, int(int32(fd)))
		if f.flags == syscall.O_WRONLY {
			q.writers--
		} else {
			q.readers--
		}
		q.notify()
		return 0, 0
	case syscall.SYS_FSTAT:
		st := (*syscall.Stat_t)(unsafe.Pointer(ptr))
		*st = syscall.Stat_t{Mode: syscall.S_IFIFO | 0o600}
		return 0, 0
	}
	return 0, syscall.EINVAL
}

// flock locks are held per open file.
func (w *World) flock(p *Proc, fd, how int) (uintptr, syscall.Errno) {
	f := p.fds[fd]
	if f == nil || f.node == nil {
		return 0, syscall.EBADF
	}
	if how&syscall.LOCK_UN != 0 {
		f.locked = 0
		return 0, 0
	}
	want := 1
	if how&syscall.LOCK_EX != 0 {
		want = 2
	}
	for {
		busy := false
		for _, q := range w.Procs {
			if q.Ended {
				continue
			}
			for _, g := range q.fds {
				if g != f && g.node == f.node && g.locked != 0 && (want == 2 || g.locked == 2) {
					busy = true
				}
			}
		}
		if !busy {
			f.locked = want
			return 0, 0
		}
		if how&syscall.LOCK_NB != 0 {
			return 0, syscall.EWOULDBLOCK
		}
		time.Sleep(time.Millisecond)
		if p.Ended {
			park()
		}
	}
}
