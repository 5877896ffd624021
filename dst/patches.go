package main

// Patches applied to copies of Go runtime and library files in the overlay of the simulation build.
// Every anchor must occur exactly once, otherwise the build stops with an error.

type edit struct{ old, new string }

var stdPatches = map[string][]edit{
	"runtime/proc.go": {
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif dst.active {\n\t\treturn dstRunqget(pp), false\n\t}\n"},
		{"	dropg()\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n}\n\n// Gosched continuation on g0.",
			"	dropg()\n	if dst.active {\n		runqput(getg().m.p.ptr(), gp, false)\n		schedule()\n	}\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n}\n\n// Gosched continuation on g0."},
		{"	// Track initial transition?\n	newg.trackingSeq = uint8(cheaprand())", "	dstNewG(newg, callergp)\n	// Track initial transition?\n	newg.trackingSeq = 1"},
	},
	"runtime/runtime2.go": {
		{"	waitReasonSynctestSelect:        true,\n", "	waitReasonSynctestSelect:        true,\n	waitReasonChanReceive:           true,\n	waitReasonChanSend:              true,\n	waitReasonSelect:                true,\n	waitReasonSemacquire:            true,\n	waitReasonSyncWaitGroupWait:     true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n"},
		{"	valgrindStackID uintptr\n}", "	valgrindStackID uintptr\n\n	dstProc uint32\n	dstID   uint32\n	dstPrio uint32\n	dstQuiet int32\n}"},
	},
	"runtime/race_amd64.s": {
		{"TEXT	racecalladdr<>(SB), NOSPLIT, $0-0\n", "TEXT	racecalladdr<>(SB), NOSPLIT, $0-0\n	CMPL	g_dstQuiet(R14), $0\n	JNE	ret\n"},
	},
	"runtime/sigqueue.go": {
		{"func signalWaitUntilIdle() {\n", "func signalWaitUntilIdle() {\n	if dst.active {\n		return\n	}\n"},
	},
	"runtime/rand.go": {
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if dst.active {\n		return dstRand64()\n	}\n"},
		{"	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", "	seed := &globalRand.seed\n	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	if true {\n	} else if len(startupRand) >= 16 &&"},
	},
	"runtime/select.go": {
		{"		j := cheaprandn(uint32(norder + 1))\n", "		j := cheaprandn(uint32(norder + 1))\n		if dst.active {\n			j = uint32((dstMix(&dst.selectRand) >> 32) * uint64(norder+1) >> 32)\n		}\n"},
	},
	"runtime/time.go": {
		{"			t.rand = cheaprand()\n", "			t.rand = cheaprand()\n			if dst.active {\n				t.rand = uint32(dstMix(&dst.timerRand) >> 32)\n			}\n"},
		{"	isChan bool         // timer has a channel; immutable; can be read without lock\n", "	isChan bool         // timer has a channel; immutable; can be read without lock\n	dstProc uint32\n"},
		{"		t.isFake = true\n	}\n	t.modify(when, period, f, arg, 0)\n", "		t.isFake = true\n		t.dstProc = getg().dstProc\n	}\n	t.modify(when, period, f, arg, 0)\n"},
		{"		bubble.changegstatus(gp, _Gdead, _Grunning)\n", "		bubble.changegstatus(gp, _Gdead, _Grunning)\n		gp.dstProc = t.dstProc\n"},
		{"		bubble.changegstatus(gp, _Grunning, _Gdead)\n", "		bubble.changegstatus(gp, _Grunning, _Gdead)\n		gp.dstProc = 0\n"},
		{"	if bubble := getg().bubble; bubble != nil {\n		sec = bubble.now / (1000 * 1000 * 1000)\n		nsec = int32(bubble.now % (1000 * 1000 * 1000))\n",
			"	if bubble := getg().bubble; bubble != nil {\n		now := bubble.now + dst.wallOffset\n		sec = now / (1000 * 1000 * 1000)\n		nsec = int32(now % (1000 * 1000 * 1000))\n"},
		{"		return sec, nsec, 0\n", "		return sec, nsec, bubble.now\n"},
	},
	"syscall/syscall_linux.go": {
		{"func Pipe2(p []int, flags int) error {\n", "var dstPipeBuf [2]int32\n\nfunc Pipe2(p []int, flags int) error {\n	if dstrt.SyscallHook != nil && dstrt.Proc() != 0 && len(p) == 2 {\n		q := &dstPipeBuf\n		if _, _, e, ok := dstrt.SyscallHook(SYS_PIPE2, uintptr(unsafe.Pointer(q)), uintptr(flags), 0, 0, 0, 0); ok {\n			if e != 0 {\n				return Errno(e)\n			}\n			p[0], p[1] = int(q[0]), int(q[1])\n			return nil\n		}\n	}\n"},
		{"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"//go:uintptrescapes\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n	if dstrt.SyscallHook != nil && dstrt.Proc() != 0 {\n		if x1, x2, e, ok := dstrt.SyscallHook(trap, a1, a2, a3, 0, 0, 0); ok {\n			return x1, x2, Errno(e)\n		}\n	}\n	return dstSyscall6(trap, a1, a2, a3, 0, 0, 0)\n}\n\n//go:uintptrkeepalive\n//go:nosplit\nfunc dstSyscallOld(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n"},
		{"//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"//go:uintptrescapes\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n	if dstrt.SyscallHook != nil && dstrt.Proc() != 0 {\n		if x1, x2, e, ok := dstrt.SyscallHook(trap, a1, a2, a3, a4, a5, a6); ok {\n			return x1, x2, Errno(e)\n		}\n	}\n	return dstSyscall6(trap, a1, a2, a3, a4, a5, a6)\n}\n\n//go:uintptrkeepalive\n//go:nosplit\nfunc dstSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n"},
		{"import (\n", "import (\n	dstrt \"archive\"\n"},
	},
	"os/proc.go": {
		{"func Exit(code int) {\n", "func Exit(code int) {\n	if dstrt.ExitHook != nil && dstrt.Proc() != 0 {\n		dstrt.ExitHook(code)\n	}\n"},
		{"import (\n", "import (\n	dstrt \"archive\"\n"},
	},
	"os/file.go": {
		{"	n, e := f.write(b)\n	if n < 0 {\n		n = 0\n	}\n	if n != len(b) {\n		err = io.ErrShortWrite\n	}\n\n	epipecheck(f, e)\n", "	var e error\n	if dstStd(f) {\n		n, e = dstStdWrite(f, b)\n	} else {\n		n, e = f.write(b)\n	}\n	if n < 0 {\n		n = 0\n	}\n	if n != len(b) {\n		err = io.ErrShortWrite\n	}\n\n	if !dstStd(f) {\n		epipecheck(f, e)\n	}\n"},
	},
	"os/exec_posix.go": {
		{"func startProcess(name string, argv []string, attr *ProcAttr) (p *Process, err error) {\n", "func startProcess(name string, argv []string, attr *ProcAttr) (p *Process, err error) {\n	if dstrt.Proc() != 0 {\n		return nil, &PathError{Op: \"fork/exec\", Path: name, Err: syscall.EPERM}\n	}\n"},
		{"import (\n", "import (\n	dstrt \"archive\"\n"},
	},
	"os/exec/exec.go": {
		{"func (c *Cmd) Run() error {\n", "func (c *Cmd) Run() error {\n	if true {\n		return c.dstRun()\n	}\n"},
		{"func (c *Cmd) Start() error {\n", "func (c *Cmd) Start() error {\n	if true {\n		return c.dstStart()\n	}\n"},
		{"func (c *Cmd) Wait() error {\n", "func (c *Cmd) Wait() error {\n	if true {\n		return c.dstWait()\n	}\n"},
	},
	"net/http/roundtrip.go": {
		{"		panic(\"transport is nil\")\n	}\n", "		panic(\"transport is nil\")\n	}\n	if DSTRoundTrip != nil {\n		if resp, err, ok := DSTRoundTrip(t, req); ok {\n			return resp, err\n		}\n	}\n"},
		{"func badRoundTrip(*Transport, *Request) (*Response, error)\n", "func badRoundTrip(*Transport, *Request) (*Response, error)\n\n// DSTRoundTrip answers requests to simulated hosts.\nvar DSTRoundTrip func(t *Transport, req *Request) (resp *Response, err error, ok bool)\n"},
	},
	"os/signal/signal_unix.go": { // no signals are simulated
		{"func init() {\n	watchSignalLoop = loop\n}\n", ""},
		{"	signal_enable(uint32(sig))\n", ""},
		{"	signal_disable(uint32(sig))\n", ""},
		{"	signal_ignore(uint32(sig))\n", ""},
		{"	return signal_ignored(uint32(sig))\n", "	return false\n"},
	},
	"net/dial.go": {
		{"func Listen(network, address string) (Listener, error) {\n", "func Listen(network, address string) (Listener, error) {\n	if dstrt.ListenHook != nil && dstrt.Proc() != 0 {\n		l, err := dstrt.ListenHook(network, address)\n		if err != nil {\n			return nil, err\n		}\n		return l.(Listener), nil\n	}\n"},
		{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if dstrt.DialHook != nil && dstrt.Proc() != 0 {\n		c, err := dstrt.DialHook(network, address)\n		if err != nil {\n			return nil, err\n		}\n		return c.(Conn), nil\n	}\n"},
		{"import (\n", "import (\n	dstrt \"archive\"\n"},
	},
}

// Added files: overlay path (relative to GOROOT/src) -> source below /verif/worker.
var stdAdded = map[string]string{
	"archive/dstrt.go":       "rt/dstrt.go",
	"archive/dstrt.s":        "rt/dstrt.s",
	"runtime/zz_dst.go":      "rt/runtime_dst.go",
	"os/exec/zz_dst_exec.go": "rt/exec_dst.go",
	"os/zz_dst_os.go":        "rt/os_dst.go",
}
